"""C15: Splitting output by a row limit loses, repeats and reorders nothing."""

import os
import re

import nappy

from mon import nc
from mon.checks import c14
from mon.core import Violation, must

CASES = {"quick": 1600, "thorough": 25000}
RULE = ("Random NetCDF files are converted with and without a row limit (1, just under, at and just over the number of "
        "rows, and random ones), with random presentation options, to NASA Ames or CSV; the split files' lines, put "
        "together, are compared with those of the unsplit output, headers line by line.")
REQUIRED = ["split", "within the limit", "not splittable", "limit 1", "limit n-1", "limit n", "limit n+1", "exact multiple",
            "remainder", "no header", "annotation", "csv", "several outputs", "no extension", "overrides", "many volumes",
            "in memory"]
EOF_MONITOR = False


def lines_of(path):
    text = open(path, newline="").read()
    if not text.endswith("\n"):
        raise Violation("%s does not end with a whole line" % os.path.basename(path))
    # the time of conversion may differ between the two conversions
    text = re.sub(r"(History:  )\d{4}-\d\d-\d\d \d\d:\d\d:\d\d( - Converted)", r"\1TIME\2", text)
    return text[:-1].split("\n")


def header_length(lines):
    """Its last two numbers are the number of header lines and the format index, also after a description."""
    return ints(lines[0])[-2]


def ints(line):
    return [int(x) for x in re.findall(r"-?\d+", line)]


def whole(got, want, what):
    if got != want:
        n = [a == b for a, b in zip(got, want)] + [False]
        k = n.index(False)
        raise Violation("%s: line %d is %r, in the unsplit output %r" %
                        (what, k + 1, got[k:k + 1], want[k:k + 1]))


def case(rng, i, ctx):
    g = nc.NcGen(rng)
    k = rng.random()
    if k < 0.75:
        ds = g.dataset(onlyrank=1, scalars=rng.random() < 0.3)
    else:
        ds = g.dataset()
    if rng.random() < 0.03 and not ds["dims"][0]["time"]:
        # a long record
        d = ds["dims"][0]
        n = rng.randint(110, 260)
        d["values"] = [float(x) for x in range(n)]
        d["unlimited"] = False
        d["dtype"] = "f8"
        ds["dims"], ds["vars"] = [d], [g.var([d["name"]], [d]) for _ in range(2)]
    path = ctx.path("in.nc")
    nc.write(path, ds)
    n = len(ds["dims"][0]["values"])
    limit = rng.choice((1, n - 1, n, n + 1, rng.randint(1, n + 3), max(1, n // 2), max(1, n // 3), 2, 3))
    limit = max(1, limit)
    for name, value in (("limit 1", 1), ("limit n-1", n - 1), ("limit n", n), ("limit n+1", n + 1)):
        if limit == value:
            ctx.feature(name)
    kw = {}
    csv = rng.random() < 0.2
    if rng.random() < 0.25:
        kw["annotation"] = True
        ctx.feature("annotation")
    if rng.random() < 0.2:
        kw["no_header"] = True
        kw.pop("annotation", None)
        ctx.feature("no header")
    if rng.random() < 0.3 and not csv:
        kw["delimiter"] = rng.choice((",", " ", "\t", "  "))
    if rng.random() < 0.3:
        kw["float_format"] = rng.choice(("%.17g", "%g", "%12.4e"))
    if rng.random() < 0.2:
        kw["na_items_to_override"] = {"MNAME": "mission", "NCOM": ["a comment", "another"]}
        ctx.feature("overrides")
    sep = "," if csv else kw.get("delimiter", "    ")
    ext = ".csv" if csv else ".na"
    name = rng.choice(("out" + ext, "out" + ext, "o.u.t" + ext, "out", "out.txt"))
    if name == "out":
        ctx.feature("no extension")
    os.makedirs(os.path.join(ctx.dir, "a.dir"))
    os.makedirs(os.path.join(ctx.dir, "b.dir"))
    if rng.random() < 0.2 and not csv:
        ctx.feature("in memory")

        def fn(path, out, **kw):
            with nc.open_arrays(path) as x:
                arrays = [x[v] for v in x.data_vars]
                return nappy.convertXarrayObjectsToNA(arrays, list(x.attrs.items()), out, **kw)
    else:
        fn = nappy.convertNCToCSV if csv else nappy.convertNCToNA
    ctx.seen(repr((ds, kw, limit, name, csv)))
    ctx.sample = repr((limit, kw, name, ds))
    plain = must("conversion", fn, path, os.path.join(ctx.dir, "a.dir", name), **kw)
    split = must("conversion with size_limit=%d" % limit, fn, path, os.path.join(ctx.dir, "b.dir", name),
                 size_limit=limit, **kw)
    if csv:
        ctx.feature("csv")
    if len(plain) > 1:
        ctx.feature("several outputs")
    there = [os.path.join("b.dir", f) for f in c14.listing(os.path.join(ctx.dir, "b.dir"))]
    if sorted(os.path.relpath(f, ctx.dir) for f in split) != there or len(set(split)) != len(split):
        raise Violation("reported are %r, written were %r" % (split, there))

    left = list(split)
    for f in plain:
        base, suffix = os.path.splitext(os.path.basename(f))
        mine = [s for s in left if re.match(r"^%s(-\d+)?%s$" % (re.escape(base), re.escape(suffix)), os.path.basename(s))]
        if not mine:
            raise Violation("there is no file for %s among %r" % (os.path.basename(f), split))
        left = [s for s in left if s not in mine]
        judge(f, mine, limit, kw, sep, ctx)
    if left:
        raise Violation("unexpected files %r" % left)


def judge(f, mine, limit, kw, sep, ctx):
    want = lines_of(f)
    parts = [lines_of(s) for s in mine]
    where = os.path.basename(f)
    if kw.get("no_header"):
        # the lines are rows if the format can be split
        if len(mine) == 1:
            whole(parts[0], want, where)
            return
        for p in parts[:-1]:
            if len(p) != limit:
                raise Violation("%s: a file has %d rows, the limit is %d" % (where, len(p), limit))
        whole(sum(parts, []), want, where)
        ctx.feature("split")
        ctx.count("rows compared", len(want))
        return
    annotated = bool(kw.get("annotation"))
    nh = header_length(want)
    ffi = ints(want[0])[-1]
    rows = len(want) - nh
    if ffi != 1001 or rows <= limit:
        if len(mine) != 1 or os.path.basename(mine[0]) != where:
            raise Violation("%s (FFI %d, %d rows, limit %d) was written to %r" % (where, ffi, rows, limit, mine))
        whole(parts[0], want, where)
        ctx.feature("not splittable" if ffi != 1001 else "within the limit")
        return
    expected = -(-rows // limit)
    if len(mine) != expected:
        raise Violation("%s: %d rows with the limit %d give %d files" % (where, rows, limit, len(mine)))
    ctx.feature("split", "exact multiple" if rows % limit == 0 else "remainder")
    if expected > 100:
        ctx.feature("many volumes")
    data = []
    for k, (s, p) in enumerate(zip(mine, parts)):
        w = os.path.basename(s)
        if header_length(p) != nh:
            raise Violation("%s states another header length" % w)
        for no, (a, b) in enumerate(zip(want[:nh], p[:nh])):
            if no == 5:
                got = ints(b)[-2:]
                if got != [k + 1, expected]:
                    raise Violation("%s: the volume line is %r, expected %d of %d" % (w, b, k + 1, expected))
                if annotated and b.split(sep)[0] != a.split(sep)[0]:
                    raise Violation("%s: line 6 is %r" % (w, b))
            elif a != b:
                raise Violation("%s: header line %d is %r, in the unsplit output %r" % (w, no + 1, b, a))
        if not 0 < len(p) - nh <= limit:
            raise Violation("%s has %d rows, the limit is %d" % (w, len(p) - nh, limit))
        data += p[nh:]
        ctx.count("split files compared")
    whole(data, want[nh:], where + " rows")
    ctx.count("rows compared", len(data))
