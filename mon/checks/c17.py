"""C17: A round trip through NetCDF gives back the original data."""

import os
import re

import nappy

from mon import grid, nc, nc2na, render
from mon.checks import c11, c12, c16
from mon.core import Violation, attempt, must

CASES = {"quick": 1100, "thorough": 20000}
RULE = ("Random NASA Ames contents of every fixed-axis format are converted to NetCDF and back, random NetCDF files to "
        "NASA Ames and back; the contents at both ends (independent NASA Ames reader, netCDF4) are compared value by "
        "value, name by name and comment by comment.")
REQUIRED = ["ffi-%d" % f for f in c11.FIXED] + ["from NetCDF", "missing", "scaled missing", "aux", "comments", "time axis",
                                                "several files", "org given", "1020 asked for", "undated time axis",
                                                "axis without units", "brackets in header texts"]
ASSUMPTIONS = ["variable names come back in the form of NetCDF names (lower case, other characters as underscores)",
               "coordinates of dated time axes are compared to the microsecond"]
EOF_MONITOR = False
norm = c16.norm


def plain(name):
    return re.sub(r"[^a-z0-9]", "", name.lower())


def sane_time(s):
    """Times that can be dated, in the axes called so."""
    names = s["xname"]
    for k, n in enumerate(names):
        if "since" in n:
            big = [m["x"] for m in s["marks"]] if k == len(names) - 1 else s.get("xdef", [[]] * 9)[k]
            if any(abs(v) > 1e6 for v in big):
                return False
    return True


def judge_name(full, got, n, what):
    base, units = c12.split(full)
    b, u = c12.split(got)
    if units and u != units:
        raise Violation("%s %r has come back as %r" % (what, full, got))
    if len(base) < 60 and plain(b) != plain(base):
        raise Violation("%s %r has come back as %r" % (what, full, got))


def judge_values(want, got, miss, scal, what):
    if len(want) != len(got):
        raise Violation("%s has come back with %d values, there were %d" % (what, len(got), len(want)))
    for k, (a, b) in enumerate(zip(want, got)):
        if (a is None) != (b == miss):
            raise Violation("%s, value %d (%s) has come back as %r; missing are %r"
                            % (what, k, "missing" if a is None else repr(a), b, miss))
        if a is not None and not grid.close(a, b * scal):
            raise Violation("%s, value %d was %r, has come back as %r" % (what, k, a, b))


def from_na(rng, ctx):
    while True:
        s = c12.make(rng, ctx)
        if sane_time(s):
            break
    for key in ("oname", "org", "sname", "mname"):
        if rng.random() < 0.15 and "  " not in s[key]:
            s[key] = rng.choice(("A. Person (%s)", "(%s) of all", "%s; (PI) and others", "a (b) (c); %s", "%s.")) % s[key]
            ctx.feature("brackets in header texts")
    text = render.render(s, render.Layout())
    ctx.seen(text)
    ctx.sample = text[:1200]
    path = render.write(ctx.path("in.na"), text)
    mid, out = ctx.path("mid.nc"), ctx.path("back.na")
    must("convertNAToNC", nappy.convertNAToNC, path, mid, time_warning=False)
    kw = {"float_format": "%.17g"}
    naux = len(s.get("aname", ()))
    split_aux = s["ffi"] == 1020 and naux and s["nvpm"] > 1
    if rng.random() < 0.3:
        kw["na_items_to_override"] = {"ORG": s["org"]}
        ctx.feature("org given")
    if split_aux:
        kw["requested_ffi"] = 1020
        files, exc = attempt(nappy.convertNCToNA, mid, out, **kw)
        if exc is not None:
            if "interval" not in str(exc) and "can only write to" not in str(exc):
                raise Violation("converting back to FFI 1020 raised %s: %s" % (type(exc).__name__, exc))
            if any(f.startswith("back") for f in os.listdir(ctx.dir)):
                raise Violation("a refused conversion has left a file")
            return
        ctx.feature("1020 asked for")
    else:
        files = must("convertNCToNA", nappy.convertNCToNA, mid, out, **kw)
    if len(files) != 1:
        raise Violation("a file of FFI %d has come back as %d files" % (s["ffi"], len(files)), files=files)
    t = nc2na.parse_file(files[0])

    # variables
    want = [(s["vname"][n], "main", grid.flat(s, n), s["vscal"][n], s["vmiss"][n]) for n in range(len(s["vname"]))]
    auxs = [(s["aname"][n], "aux", grid.aux(s, n), s["ascal"][n], s["amiss"][n]) for n in range(naux)]
    joined = s["ffi"] == 1010 or (s["ffi"] == 1020 and not split_aux)
    if joined:
        auxs = [(a[0], "main") + a[2:] for a in auxs]       # on the same (only) axis: they come back as variables
    got = nc2na.variables_of(t)
    if len(got) != len(want + auxs):
        raise Violation("%d variables have come back, there were %d" % (len(got), len(want + auxs)))
    for k, ((full, kind, values, scal, miss), (name, gkind, n)) in enumerate(zip(want + auxs, got)):
        what = "variable %r" % full
        if kind != gkind:
            raise Violation("%s has come back as %s variable" % (what, gkind))
        judge_name(full, name, k, "variable")
        v, m, sc = nc2na.values_of(t, gkind, n)
        judge_values(c11.scaled(values, scal, miss), v, m, sc, what)
        ctx.count("values compared", len(v))
        if None in c11.scaled(values, scal, miss):
            ctx.feature("missing")
    if naux:
        ctx.feature("aux")
    # axes
    a, b = grid.expand(s), nc2na.axes_of(t)
    if len(a) != len(b):
        raise Violation("%d axes have come back, there were %d" % (len(b), len(a)))
    for name, gname, want, got in zip(s["xname"][::-1], t["xname"][::-1], a, b):
        m = c12.TIME.search(name)
        rel = 1e-12
        if m:
            step = {"seconds": 1, "minutes": 60, "hours": 3600, "days": 86400}[name[m.start():].split()[0].strip("(")]
            rel = max(rel, 2e-6 / step / max([abs(x) for x in want] + [1e-9]))
            ctx.feature("time axis")
        elif "time" in name.lower():
            ctx.feature("undated time axis")
        if "(" not in name:
            ctx.feature("axis without units")
        diff = grid.axis_difference(want, got, rel)
        if diff:
            raise Violation("axis %r: %s" % (name, diff), want=want, got=got)
        if norm(name) != norm(gname):
            raise Violation("the axis %r has come back as %r" % (name, gname))
    # header
    for key in ("oname", "sname", "mname") + (("org",) if "na_items_to_override" in kw else ()):
        if norm(s[key]) != norm(t[key]):
            raise Violation("%s %r has come back as %r" % (key.upper(), s[key], t[key]))
    for key in ("scom", "ncom"):
        ls = [norm(c) for c in s[key] if c.strip()]
        c16.in_order(ls, [norm(c) for c in t[key]], "%s of the original" % key.upper(), t[key])
        if ls:
            ctx.feature("comments")
    if not any(c12.TIME.search(n) for n in s["xname"][-1:]) and t["date"] != s["date"]:
        raise Violation("the date %r has come back as %r" % (s["date"], t["date"]))


def from_nc(rng, ctx):
    g = nc.NcGen(rng)
    ds = g.dataset(scalars=False)
    for v in ds["vars"]:
        v["pack"] = None
    path = ctx.path("in.nc")
    nc.write(path, ds)
    ctx.seen(repr(ds))
    ctx.sample = repr(ds)
    ctx.feature("from NetCDF")
    files = must("convertNCToNA", nappy.convertNCToNA, path, ctx.path("mid.na"), float_format="%.17g")
    if len(files) > 1:
        ctx.feature("several files")
    known = nc2na.by_name(ds)
    seen = []
    for f in files:
        spec = nc2na.parse_file(f)
        out = f + ".nc"
        must("convertNAToNC", nappy.convertNAToNC, f, out, time_warning=False)
        data = nc.Nc(out)
        for name, kind, n in nc2na.variables_of(spec):
            attr = "nasa_ames_var_number" if kind == "main" else "nasa_ames_aux_var_number"
            found = c11.find(data, attr, n)
            if len(found) != 1 or name not in known:
                raise Violation("%d variables have come back for %r" % (len(found), name))
            v, w = known[name], data.vars[found[0]]
            dims = [nc.dim_of(ds, d) for d in v["dims"]]
            if w["data"].shape != tuple(len(d["values"]) for d in dims):
                raise Violation("%r has come back with the shape %r" % (name, w["data"].shape))
            c11.compare("%r" % name, v["data"], data.flat(found[0]))
            for d, back in zip(dims, w["dims"]):
                tol = 1.2e-7 if d["dtype"] == "f4" else (1e-9 if d["time"] else 1e-11)
                diff = grid.axis_difference(d["values"], data.axis(back), tol)
                if diff:
                    raise Violation("axis %r of %r: %s" % (d["name"], name, diff))
                if d["units"] and data.vars[back]["attrs"].get("units") != d["units"]:
                    raise Violation("the units of axis %r have come back as %r" %
                                    (d["name"], data.vars[back]["attrs"].get("units")))
            ctx.count("values compared", len(v["data"]))
            seen.append(name)
    if sorted(seen) != sorted(known):
        raise Violation("came back: %r, there were %r" % (sorted(seen), sorted(known)))


def case(rng, i, ctx):
    if rng.random() < 0.6:
        from_na(rng, ctx)
    else:
        from_nc(rng, ctx)
