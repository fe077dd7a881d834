"""C18: A requested output format is honoured with the same data, or refused."""

import os
import re

import numpy as np

import nappy

from mon import nc, nc2na
from mon.checks import c14, c16
from mon.core import Violation, attempt, must

CASES = {"quick": 800, "thorough": 12000}
FFIS = (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)
RULE = ("Random NetCDF contents of one to four dimensions (uniform and other axes, auxiliary variables, variables on "
        "subsets of the axis, several output files) are converted without and with every format index (in random order, and an unknown one), through "
        "the file and in-memory routes; formats, variables, axes, values and missing marks of all output files "
        "(independent reader) are compared with the NetCDF content and the default output; a refusal must leave no file.")
REQUIRED = ["honoured 1001", "honoured 1020", "honoured 2010", "honoured 2110", "honoured 2310",
            "honoured 3010", "honoured 4010", "refused 1001", "refused 1010", "refused 1020", "refused 2010",
            "refused 2110", "refused 2310", "refused 3010", "refused 4010", "refused 2160", "unknown index",
            "same as default", "several files", "aux", "time axis", "in memory", "two subsets"]
EOF_MONITOR = False


def uniform(d):
    v = d["values"]
    return len(v) > 1 and bool(np.all(np.linspace(v[0], v[-1], len(v)) == np.array(v))) and d["dtype"] == "f8"


def with_subset(rng, g):
    """One dimension and variables on every n-th value of it."""
    ds = g.dataset(onlyrank=1, scalars=False, extra=False)
    d = ds["dims"][0]
    k = rng.randint(2, 4)
    n = k * rng.randint(2, 5)
    two = rng.random() < 0.25
    if two:
        n = 12
    start, step = rng.randint(-20, 50), rng.choice((1, 2, 5, 0.5, 0.25))
    d.update(values=[float(start + j * step) for j in range(n)], dtype="f8", unlimited=False)
    new = dict(d, name=d["name"] + "_sub", values=d["values"][::k])
    ds["exact"] = d["name"] in ("x", "y", "z", "ens") and d["axis"] is None and d["standard_name"] is None \
        and d["units"] in ("m", "km", None)
    if rng.random() < 0.2:
        ds["exact"] = False
        new["values"] = list(new["values"])
        new["values"][-1] += 0.125 * step
    ds["dims"].append(new)
    ds["vars"] = [g.var([d["name"]], ds["dims"]) for _ in range(rng.randint(1, 3))]
    ds["vars"] += [g.var([new["name"]], ds["dims"]) for _ in range(rng.randint(1, 2))]
    if two:
        # and on every m-th of them
        m = rng.choice([m for m in (2, 3, 4, 6) if m != k])
        ds["dims"].append(dict(d, name=d["name"] + "_other", values=d["values"][::m]))
        ds["vars"].insert(rng.randint(0, len(ds["vars"])), g.var([d["name"] + "_other"], ds["dims"]))
        ds["exact"] = False
        ds["two"] = True
    return ds


def judge(ds, files, ctx):
    found = []
    ffis = []
    for f in files:
        spec = nc2na.parse_file(f)
        ffis.append(spec["ffi"])
        names = nc2na.judge_file(ds, spec, "%.17g", ctx, where=os.path.basename(f) + ": ")
        found += names
        if any(k == "aux" for _, k, _ in nc2na.variables_of(spec)):
            ctx.feature("aux")
    return sorted(found), ffis


def text(f):
    t = open(f).read()
    return re.sub(r"(History:  )\S+ \S+( - Converted)", r"\1TIME\2", t)


def case(rng, i, ctx):
    g = nc.NcGen(rng)
    k = rng.random()
    if k < 0.25:
        ds = with_subset(rng, g)
        if ds.get("two"):
            ctx.feature("two subsets")
    elif k < 0.6:
        ds = g.dataset(onlyrank=2, extra=rng.random() < 0.4)
    else:
        ds = g.dataset()
    path = ctx.path("in.nc")
    nc.write(path, ds)
    fn = nappy.convertNCToNA
    if rng.random() < 0.2:
        fn = c16.in_memory
        ctx.feature("in memory")
    default = must("conversion", fn, path, ctx.path("default.na"), float_format="%.17g")
    names, ffis = judge(ds, default, ctx)
    if any(nc.dim_of(ds, d)["time"] for v in ds["vars"] for d in v["dims"][:1]):
        ctx.feature("time axis")
    if len(default) > 1:
        ctx.feature("several files")

    wants = list(FFIS) + [rng.choice((9999, 1002, -1, 1011))]
    rng.shuffle(wants)
    ctx.seen(repr(ds))
    ctx.sample = repr(ds)
    for n, want in enumerate(wants):
        ask(rng, ctx, ds, fn, path, want, ctx.path("asked%d.na" % n), default, names, ffis)
        ctx.count("formats asked for")


def ask(rng, ctx, ds, fn, path, want, out, default, names, ffis):
    if want not in FFIS:
        ctx.feature("unknown index")
    before = c14.listing(ctx.dir)
    files, exc = attempt(fn, path, out, float_format="%.17g", requested_ffi=want)

    ranked = [v for v in ds["vars"] if v["dims"]]
    if exc is not None:
        left = sorted(set(c14.listing(ctx.dir)) - set(before))
        if left:
            raise Violation("FFI %d was refused (%s) but the files %r were written" % (want, exc, left))
        ctx.feature("refused %d" % want)
        if set(ffis) == {want}:
            raise Violation("FFI %d, which is the default, was refused: %r" % (want, exc))
        if want == 2110 and set(ffis) == {2010}:
            raise Violation("FFI 2110 was refused for data on two axes: %r" % exc)
        if want == 2310 and set(ffis) == {2010} and all(uniform(nc.dim_of(ds, v["dims"][1])) for v in ranked
                                                       if len(v["dims"]) == 2) \
                and not any(nc.dim_of(ds, v["dims"][1])["time"] for v in ranked if len(v["dims"]) == 2):
            raise Violation("FFI 2310 was refused for data on a uniform second axis: %r" % exc)
        if want == 1020 and ds.get("exact"):
            raise Violation("FFI 1020 was refused for data on every n-th value of an axis: %r" % exc)
        return
    got, asked = judge(ds, files, ctx)
    if set(asked) != {want}:
        raise Violation("FFI %d was asked for, written were %r" % (want, asked))
    if got != names:
        raise Violation("with FFI %d the variables %r were written, by default %r" % (want, got, names))
    ctx.feature("honoured %d" % want)
    if set(ffis) == {want}:
        ctx.feature("same as default")
        if want != 1020 and [text(f) for f in files] != [text(f) for f in default]:
            raise Violation("asking for FFI %d, which is the default, changes the output" % want)
