"""C24: CSV conversion states the same content, comma-separated."""

import os
import re

import nappy

from mon import model, nc, nc2na, present, render
from mon.checks import c01, c14
from mon.core import Violation, must

CASES = {"quick": 3500, "thorough": 60000}
RULE = ("(1) Random NASA Ames files of every format, in plain and random layouts, are converted to CSV; every line of the "
        "result is judged against the content: kind, number, order and printed form of its items, commas, description. "
        "(2) Random NetCDF files (and arrays from them) are converted to CSV and to NASA Ames with the same arguments; "
        "every CSV file is judged in the same way against what an independent reader finds in the corresponding NASA Ames "
        "file. Without header the file must be exactly the data lines. Names, the directory and the input are compared.")
REQUIRED = ["ffi-%d" % f for f in model.FFIS] + ["annotation", "no header", "default name", "given name", "from NetCDF",
                                                 "from arrays", "several files", "comma in a text", "split", "wild layout",
                                                 "nc 1001", "nc 2010", "no extension", "mark-without-values"]
ASSUMPTIONS = ["file name extensions have two or three letters", "the values are printed in the default float format, as there "
               "is no other choice in the conversion from NASA Ames"]
EOF_MONITOR = False


def options(rng, ctx):
    kw = {}
    k = rng.random()
    if k < 0.3:
        kw["annotation"] = True
        ctx.feature("annotation")
    elif k < 0.5:
        kw["no_header"] = True
        ctx.feature("no header")
    elif k < 0.55:
        kw.update(annotation=True, no_header=True)
    elif k < 0.65:
        kw.update(annotation=False, no_header=False)
    return kw


def replaced(name, ext):
    root, old = os.path.splitext(name)
    return root + ext


def text_of(path):
    try:
        with open(path, newline="") as fh:
            return fh.read()
    except FileNotFoundError:
        raise Violation("the CSV file %s does not exist" % os.path.basename(path))


def from_na(rng, ctx):
    s = c01.make(rng, ctx)
    c01.features(ctx, s)
    if rng.random() < 0.3:
        s["ncom"] = s["ncom"] + ["a, b,c", ",,"]
        s["oname"] = "Smith, J., Miller,K"
        ctx.feature("comma in a text")
    wild = rng.random() < 0.3
    if wild:
        ctx.feature("wild layout")
    text = render.render(s, render.Wild(rng) if wild else render.Layout())
    ctx.seen(text)
    ctx.sample = text
    path = os.path.join(ctx.dir, rng.choice(("in.na", "in.na", "a.b.na", "noext", "IN.NAS", "in.txt", "d.x/in.na", "d.x/noext",
                                             "d.na.x/in.na", "d.na.x/x.na.nas", "x.na.na", "d.na.x/noext")))
    os.makedirs(os.path.join(ctx.dir, "d.x"))
    os.makedirs(os.path.join(ctx.dir, "d.na.x"))
    render.write(path, text)
    kw = options(rng, ctx)
    given = rng.random() < 0.5
    out = os.path.join(ctx.dir, rng.choice(("out.csv", "d.x/out", "o.u.t.txt", "out.na"))) if given else None
    ctx.feature("given name" if given else "default name")
    before = c14.listing(ctx.dir)
    if rng.random() < 0.2:
        # relative names
        rel = os.path.relpath(path, ctx.dir)
        must("convertNAToCSV", nappy.convertNAToCSV, rel, *([os.path.relpath(out, ctx.dir)] if out else []), **kw)
    else:
        must("convertNAToCSV", nappy.convertNAToCSV, path, *([out] if out else []), **kw)
    out = out or replaced(path, ".csv")
    new = sorted(set(c14.listing(ctx.dir)) - set(before))
    if new != [os.path.relpath(out, ctx.dir)]:
        raise Violation("the files created are %r, expected %r" % (new, os.path.basename(out)))
    if open(path, newline="").read() != text:
        raise Violation("the input file was changed")
    got = text_of(out)
    diff = present.judge(got, s, delimiter=",", **kw)
    if diff:
        raise Violation("FFI %d to CSV, %r: %s" % (s["ffi"], kw, diff), text=got)
    ctx.count("files judged")
    ctx.count("lines judged", got.count("\n"))


def from_nc(rng, ctx):
    g = nc.NcGen(rng)
    ds = g.dataset()
    if rng.random() < 0.3:
        ds["globals"]["institution"] = "A, B,C"
        ctx.feature("comma in a text")
    path = os.path.join(ctx.dir, rng.choice(("in.nc", "in.nc", "a.b.nc", "noext", "in.cdf", "d.nc.x/in.nc", "x.nc.nc")))
    os.makedirs(os.path.join(ctx.dir, "d.nc.x"))
    nc.write(path, ds)
    kw = options(rng, ctx)
    view = {k: kw.pop(k) for k in ("annotation", "no_header") if k in kw}
    fmt = "%.10g"
    if rng.random() < 0.4:
        fmt = kw["float_format"] = rng.choice([f for f in nc2na.FORMATS if f != "%s"])
    if rng.random() < 0.25:
        names = [v["name"] for v in ds["vars"] if v["dims"] and not v.get("isbounds")]
        kw["var_ids"] = rng.sample(names, rng.randint(1, len(names)))
    if rng.random() < 0.25:
        kw["size_limit"] = rng.randint(1, 12)
    if rng.random() < 0.25:
        kw["na_items_to_override"] = {"MNAME": "A mission, the second", "DATE": [1999, 1, 2], "NCOM": ["one, two", "three"]}
    ctx.seen(repr((ds, kw, view)))
    ctx.sample = repr((kw, view, ds))
    arrays = rng.random() < 0.25 and "var_ids" not in kw
    given = arrays or rng.random() < 0.5
    out = os.path.join(ctx.dir, rng.choice(("out.csv", "o.u.t.csv", "out", "out.txt"))) if given else None
    ctx.feature("given name" if given else "default name")
    if given and "." not in os.path.basename(out):
        ctx.feature("no extension")
    original = open(path, "rb").read()
    sub = os.path.join(ctx.dir, "na.dir")
    os.mkdir(sub)
    name = os.path.basename(out or replaced(path, ".csv"))
    before = c14.listing(ctx.dir)
    if arrays:
        ctx.feature("from arrays")
        with nc.open_arrays(path) as x:
            given_arrays = [x[v] for v in x.data_vars]
            atts = list(x.attrs.items())
            csv = must("convertXarrayObjectsToCSV", nappy.convertXarrayObjectsToCSV, given_arrays, atts, out, **view, **kw)
            new = sorted(set(c14.listing(ctx.dir)) - set(before))
            na = must("convertXarrayObjectsToNA", nappy.convertXarrayObjectsToNA, given_arrays, atts,
                      os.path.join(sub, name), **kw)
    else:
        ctx.feature("from NetCDF")
        csv = must("convertNCToCSV(%r)" % kw, nappy.convertNCToCSV, *([path] + ([out] if out else [])), **view, **kw)
        new = sorted(set(c14.listing(ctx.dir)) - set(before))
        na = must("convertNCToNA(%r)" % kw, nappy.convertNCToNA, path, os.path.join(sub, name), **kw)
    if new != sorted(os.path.relpath(f, ctx.dir) for f in csv):
        raise Violation("the files created are %r, reported were %r" % (new, csv))
    if open(path, "rb").read() != original:
        raise Violation("the input file was changed")
    if [os.path.basename(f) for f in csv] != [os.path.basename(f) for f in na] or \
            any(os.path.dirname(os.path.join(ctx.dir, f)) != os.path.dirname(out or path) for f in csv):
        raise Violation("the CSV files are %r, the NASA Ames files %r" % (csv, na))
    if len(csv) == 1 and os.path.basename(csv[0]) != name:
        raise Violation("the CSV file is %r, expected %r" % (csv, name))
    if len(csv) > 1:
        ctx.feature("several files")
        if "size_limit" in kw:
            ctx.feature("split")
    for c, n in zip(csv, na):
        s = nc2na.parse_file(n, keep=True)
        ctx.feature("nc %d" % s["ffi"])
        got = text_of(c)
        # the time of conversion may differ
        diff = present.judge(undated(got), dict(s, scom=[undated(x) for x in s["scom"]], ncom=[undated(x) for x in s["ncom"]]),
                             delimiter=",", float_format=fmt, **view)
        if diff:
            raise Violation("%s (FFI %d), %r, %r: %s" % (os.path.basename(c), s["ffi"], kw, view, diff), text=got,
                            na=text_of(n))
        ctx.count("files judged")
        ctx.count("lines judged", got.count("\n"))


def undated(text):
    return re.sub(r"(History:  )\d{4}-\d\d-\d\d \d\d:\d\d:\d\d( - Converted)", r"\1TIME\2", text)


def case(rng, i, ctx):
    if rng.random() < 0.75:
        from_na(rng, ctx)
    else:
        from_nc(rng, ctx)
