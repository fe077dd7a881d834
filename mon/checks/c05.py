"""C05: every written file conforms to the format, with an exact header length."""

import copy
import os

import nappy

from mon import model, nautil, nc, nc2na, refparse, render
from mon.checks import c01, c16, c18
from mon.core import Violation

CASES = {"quick": 12000, "thorough": 200000}
RULE = ("Files written from random contents (built, or read from rendered files) and by conversions are taken apart "
        "by a strict reader of the published layout that shares no code with nappy; for direct writes the content "
        "it finds must be the content given. Non-trivial: at least one data value.")
REQUIRED = ["ffi-%d" % f for f in model.FFIS] + ["converted ffi-%d" % f for f in (1001, 1020, 2010, 2110, 2310, 3010, 4010)] + [
    "split", "converted with overrides", "format requested", "several files"]
EOF_MONITOR = False


def conformant(text, what):
    try:
        return refparse.parse(text)
    except refparse.NotConformant as e:
        raise Violation("%s: the file does not conform: %s" % (what, e), text=text)


OVERRIDES = {
    "DATE": lambda g, r: r.choice(([2001, 2, 3], "2001 2 3")), "RDATE": lambda g, r: r.choice(([2001, 2, 3], "2001 2 3")),
    "MNAME": lambda g, r: g.line(), "ONAME": lambda g, r: g.line(), "ORG": lambda g, r: g.line(),
    "SNAME": lambda g, r: g.line(), "SCOM": lambda g, r: r.choice(([g.line()], [g.line(), g.line()], g.line())),
    "NCOM": lambda g, r: r.choice(([g.line()], [g.line(), g.line(), g.line()], g.line()))}


def conversion(rng, ctx):
    """Files made from NetCDF files."""
    g = nc.NcGen(rng)
    subset = rng.random() < 0.2
    ds = c18.with_subset(rng, g) if subset else g.dataset(onlyrank=1) if rng.random() < 0.3 else g.dataset()
    ds["globals"] = c16.globals_for(rng, g, ds, ctx)
    path = ctx.path("in.nc")
    nc.write(path, ds)
    fmt = rng.choice(nc2na.FORMATS)
    kw = {"float_format": fmt, "delimiter": rng.choice(nautil.BLANK_DELIMITERS)}
    if rng.random() < 0.3:
        kw["na_items_to_override"] = {k: OVERRIDES[k](g, rng) for k in rng.sample(sorted(OVERRIDES), rng.randint(1, 4))}
        ctx.feature("converted with overrides")
    if rng.random() < 0.2:
        kw["size_limit"] = rng.randint(1, 5)
    elif rng.random() < 0.5:
        kw["requested_ffi"] = 1020 if subset else rng.choice(((1001, 1020), (2010, 2110, 2310), (3010,), (4010,))[
            max([len(v["dims"]) for v in ds["vars"]] + [1]) - 1])
    ctx.seen(repr((ds, kw)))
    ctx.sample = repr((kw, ds))
    before = set(os.listdir(ctx.dir))
    try:
        nappy.convertNCToNA(path, ctx.path("out.na"), **kw)
    except Exception:
        if "requested_ffi" not in kw:
            raise
        ctx.feature("format refused")
    files = sorted(set(os.listdir(ctx.dir)) - before)
    if len(files) > 1:
        ctx.feature("split" if "size_limit" in kw else "several files")
    for f in files:
        text = open(os.path.join(ctx.dir, f)).read()
        spec = conformant(text, "convertNCToNA(%r), file %s" % (kw, f))
        if kw.get("requested_ffi", spec["ffi"]) == spec["ffi"] and "requested_ffi" in kw:
            ctx.feature("format requested")
        ctx.feature("converted ffi-%d" % spec["ffi"])
        ctx.count("converted files parsed")


def case(rng, i, ctx):
    if i % 10 == 9:
        return conversion(rng, ctx)
    s = c01.make(rng, ctx)
    c01.features(ctx, s)
    fmt = rng.choice(nautil.PRECISE)
    if rng.random() < 0.6:
        d = nautil.user_dict(rng, s, numpy_ok=fmt not in ("%r",))
    else:
        _, d, _ = c01.read_all(render.write(ctx.path(), render.render(s, render.Wild(rng))))
    o = {"float_format": fmt, "delimiter": rng.choice(nautil.BLANK_DELIMITERS)}
    ctx.seen(repr((s, o)))
    ctx.sample = repr((o, s))
    text = nautil.write_dict(ctx.path(), copy.copy(d), **o)
    got = conformant(text, "FFI %d, %r" % (s["ffi"], o))
    diff = model.compare_dict(refparse.strip_text(s), refparse.strip_text(got))
    if diff:
        raise Violation("FFI %d, %r: read independently, %s" % (s["ffi"], o, diff), text=text)
    ctx.count("files parsed")
