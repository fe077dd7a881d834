"""C16: NetCDF to NASA Ames keeps metadata and applies overrides exactly."""

import os

import cftime

import nappy

from mon import nc, nc2na
from mon.core import Violation, must

CASES = {"quick": 1100, "thorough": 25000}
RULE = ("Random NetCDF files with random global attributes (one and several lines, mapped and unmapped, empty, from NASA "
        "Ames) are converted without and with random overrides (file, CSV and in-memory routes); the header items of every "
        "file (independent reader) and its comments are compared with the attributes of the file and its variables, and overridden with plain headers item by item.")
REQUIRED = ["title", "source", "institution", "institution from NASA Ames", "comment", "history", "text attribute",
            "several lines", "date from time axis", "other calendar", "given date", "several files", "override DATE",
            "override RDATE", "override ANAME", "override MNAME", "override ONAME", "override ORG", "override SNAME",
            "override VNAME", "override SCOM", "override NCOM", "override unknown", "override as list", "no attributes",
            "names with units compared", "several overrides", "override with nothing", "in memory", "csv", "partitioned comments",
            "variable attributes compared", "same attribute twice",
            "lines of column names compared", "attribute is a number", "units are a number", "latest date first"]
EOF_MONITOR = False
ITEMS = {"DATE": "date", "RDATE": "rdate", "ANAME": "aname", "MNAME": "mname", "ONAME": "oname", "ORG": "org",
         "SNAME": "sname", "VNAME": "vname", "SCOM": "scom", "NCOM": "ncom"}
DEFAULT_ORG = "Data held at British Atmospheric Data Centre (BADC), Rutherford Appleton Laboratory, UK."


def norm(s):
    return " ".join(str(s).split())


def lines(text):
    return [norm(t) for t in str(text).splitlines() if t.strip()]


def in_order(want, got, what, detail):
    """All lines of want are in got, in their order."""
    it = iter(got)
    for w in want:
        if not any(g == w for g in it):
            raise Violation("%s: the line %r is not (in its place) in the comments" % (what, w), comments=detail)


def globals_for(rng, g, ds, ctx):
    glob = {}
    for k, p in (("title", 0.7), ("source", 0.7), ("institution", 0.7), ("Conventions", 0.5), ("references", 0.4),
                 ("comment", 0.6), ("history", 0.6)):
        if rng.random() < p:
            glob[k] = g.line()
    if rng.random() < 0.15:
        glob["institution"] = "Some One (ONAME from NASA Ames file); The Organisation (ORG from NASA Ames file)."
    for _ in range(rng.choice((0, 0, 1, 2, 4))):
        glob[rng.choice(("att_%d", "Note.%d", "x%d", "creator_%d")) % rng.randint(0, 99)] = \
            rng.choice((g.line(), g.line(), "", "4.5", "word"))
    for k in list(glob):
        if rng.random() < (0.4 if k in ("comment", "history") else 0.15) and "ONAME" not in glob[k]:
            glob[k] = "\n".join(g.line() for _ in range(rng.randint(2, 4)))
    if "comment" in glob and rng.random() < 0.2:
        glob["comment"] = ("==== Special Comments follow ====\n%s\n==== Special Comments end ====\n"
                           "==== Normal Comments follow ====\n%s\n==== Normal Comments end ====" % (g.line(), g.line()))
        ctx.feature("partitioned comments")
    for k in [k for k in glob if k not in ("title", "source") and rng.random() < 0.04]:
        glob[k] = rng.choice((5, 12, 2.5))
        ctx.feature("attribute is a number")
    if rng.random() < 0.2:
        import numpy as np
        glob["first_valid_date_of_data"] = np.array([rng.randint(1900, 2020), rng.randint(1, 12), rng.randint(1, 28)],
                                                    dtype="i4")
    if rng.random() < 0.1:
        glob = {}
        ctx.feature("no attributes")
    items = list(glob.items())
    rng.shuffle(items)
    return dict(items)


def judge_text(ds, spec, where, ctx):
    glob = ds["globals"]

    def item(key, value, attr):
        if norm(spec[key]) != norm(value):
            raise Violation("%s: %s is %r, the attribute %s is %r" % (where, key.upper(), spec[key], attr, value))
        ctx.feature(attr)
    if "title" in glob:
        item("mname", glob["title"], "title")
    if "source" in glob:
        item("sname", glob["source"], "source")
    if "institution" in glob:
        inst = str(glob["institution"])
        if "(ONAME from" in inst:
            item("oname", inst.split(" (ONAME from")[0], "institution from NASA Ames")
        else:
            item("oname", inst, "institution")
    if norm(spec["org"]) != norm(DEFAULT_ORG):
        raise Violation("%s: ORG is %r" % (where, spec["org"]))
    ncom, scom = [norm(c) for c in spec["ncom"]], [norm(c) for c in spec["scom"]]
    for key, value in glob.items():
        if key in ("title", "source", "institution", "first_valid_date_of_data"):
            continue
        ls = lines(value)
        if key == "comment":
            part = [c for c in ls if not c.startswith("====")]
            if len(part) < len(ls):
                in_order(part[:1], scom, "%s: attribute comment" % where, spec["scom"])
                part = part[1:]
            in_order(part, ncom, "%s: attribute comment" % where, spec["ncom"])
            ctx.feature("comment")
        elif key == "history":
            in_order(ls, ncom, "%s: attribute history" % where, spec["ncom"])
            ctx.feature("history")
        else:
            in_order([norm("%s:   %s" % (key, (str(value).splitlines() or [""])[0]))] + ls[1:], ncom,
                     "%s: attribute %s" % (where, key), spec["ncom"])
            ctx.feature("text attribute")
        if len(ls) > 1:
            ctx.feature("several lines")
        ctx.count("attributes compared")


def judge_variables(ds, spec, where, ctx):
    """The text attributes of the primary variables of the file, and of the variables of no dimensions."""
    known = nc2na.by_name(ds)
    got = [norm(c) for c in spec["scom"]]
    wanted = {}
    vs = [known[name] for name, kind, n in nc2na.variables_of(spec) if kind == "main" and name in known]
    for v in vs + [v for v in ds["vars"] if not v["dims"] and where in ("out.na", "out_1.na")]:
        for key, value in v["attrs"].items():
            if not isinstance(value, str) or key in ("coordinates", "units"):
                continue
            first, rest = lines(value)[0], lines(value)[1:]
            for line in [norm("%s = %s" % (key, first))] + rest:
                wanted[line] = wanted.get(line, 0) + 1
            ctx.count("variable attributes compared")
    for line, k in wanted.items():
        if got.count(line) < k:
            raise Violation("%s: %d variables have the attribute %r, which is %d times in the comments"
                            % (where, k, line, got.count(line)), comments=spec["scom"])
        if k > 1:
            ctx.feature("same attribute twice")


def judge_date(ds, spec, where, ctx):
    d = nc.dim_of(ds, nc2na.by_name(ds)[spec["vname"][0]]["dims"][0])
    if d["time"]:
        t = cftime.num2date(d["values"][0], d["units"], calendar=d["calendar"])
        want = [t.year, t.month, t.day]
        ctx.feature("date from time axis")
        if d["values"][-1] < d["values"][0]:
            ctx.feature("latest date first")
        if d["calendar"] in ("noleap", "365_day", "360_day"):
            ctx.feature("other calendar")
    elif "first_valid_date_of_data" in ds["globals"]:
        want = [int(x) for x in ds["globals"]["first_valid_date_of_data"]]
        ctx.feature("given date")
    else:
        return
    if spec["date"] != want:
        raise Violation("%s: the date is %r, the first date of the data is %r" % (where, spec["date"], want))


def overrides_for(rng, g, specs, ctx):
    ov = {}
    keys = [k for k in ITEMS if rng.random() < 0.3] or [rng.choice(list(ITEMS))]
    for k in keys:
        if k in ("DATE", "RDATE"):
            v = [rng.randint(1900, 2030), rng.randint(1, 12), rng.randint(1, 28)]
            ov[k] = v if rng.random() < 0.3 else " ".join(map(str, v))
        elif k in ("ANAME", "VNAME"):
            n = {len(s.get(k.lower(), ())) for s in specs}
            if len(specs) > 1 or n == {0}:
                continue
            v = ["%s%d" % (k[0].lower(), j) for j in range(n.pop())]
            if rng.random() < 0.3:
                ov[k] = [x + " with blanks (K)" for x in v]
            else:
                ov[k] = " ".join(v)
        elif k in ("SCOM", "NCOM"):
            ov[k] = [g.line() + " #%d" % j for j in range(rng.randint(1, 3))]
            if rng.random() < 0.4:
                ov[k] = ov[k][0]
        else:
            ov[k] = g.line()
            if rng.random() < 0.12:
                ov[k] = ""
                ctx.feature("override with nothing")
        ctx.feature("override " + k)
        if isinstance(ov[k], list) and k not in ("SCOM", "NCOM"):
            ctx.feature("override as list")
    if rng.random() < 0.3:
        ov[rng.choice(("FOO", "NV", "FFI", "mname", "NLHEAD", "X", "VMISS", "IVOL"))] = rng.choice(("9", "word", "1 2 3"))
        ctx.feature("override unknown")
    if len(ov) > 1:
        ctx.feature("several overrides")
    return ov


def judge_override(ov, plain, spec, where, ctx):
    expected = dict(plain)
    for key, value in ov.items():
        if key not in ITEMS:
            continue
        name = ITEMS[key]
        if key in ("DATE", "RDATE"):
            expected[name] = value if isinstance(value, list) else [int(x) for x in value.split()]
        elif key in ("ANAME", "VNAME"):
            expected[name] = value if isinstance(value, list) else value.split()
        elif key in ("SCOM", "NCOM"):
            new = [value] if isinstance(value, str) else list(value)
            old, got = plain[name], spec[name]
            k = [j for j in range(len(got)) if [norm(x) for x in got[j:j + len(new)]] == [norm(x) for x in new]]
            if not k:
                raise Violation("%s: the given %s is not there" % (where, key), got=got, given=new)
            old = list(old)
            if key == "NCOM" and "VNAME" in ov and old and old[-1] != spec[name][-1]:
                old[-1] = spec[name][-1]            # the line of column names
            if not any(got[:j] + got[j + len(new):] == old for j in k):
                raise Violation("%s: with a given %s the other comments have changed" % (where, key), got=got, before=old)
            expected[name] = got
        else:
            expected[name] = value.strip()
        ctx.count("overrides compared")
    if "VNAME" in ov and "NCOM" not in ov and expected["ncom"] and spec["ncom"]:
        expected["ncom"] = expected["ncom"][:-1] + spec["ncom"][-1:]
    expected["nlhead"] = spec.get("nlhead")
    for key in expected:
        if key in ("nlhead",):
            continue
        a, b = expected[key], spec.get(key)
        if key in ITEMS.values() and isinstance(a, str):
            a, b = norm(a), norm(b)
        if a != b:
            raise Violation("%s: with the overrides %r, %s is %r, expected %r" % (where, ov, key.upper(), b, a))


def judge_columns(spec, where, ctx):
    """In a file of columns the last comment line names them, in the order of the data."""
    if spec["ffi"] != 1001:
        return
    line = ",".join([spec["xname"][0]] + list(spec["vname"]))
    if not spec["ncom"] or norm(spec["ncom"][-1]) != norm(line):
        raise Violation("%s: the last comment is not the names of the columns" % where,
                        got=spec["ncom"][-1:], expected=line)
    ctx.count("lines of column names compared")


def drop_time(spec):
    import re
    spec["ncom"] = [re.sub(r"^History:  \S+ \S+ - Converted", "History:  TIME - Converted", c) for c in spec["ncom"]]
    return spec


def in_memory(path, out, **kw):
    with nc.open_arrays(path) as x:
        return nappy.convertXarrayObjectsToNA([x[v] for v in x.data_vars], list(x.attrs.items()), out, **kw)


def case(rng, i, ctx):
    g = nc.NcGen(rng)
    ds = g.dataset()
    ds["globals"] = globals_for(rng, g, ds, ctx)
    for v in ds["vars"]:
        if v["attrs"].get("units") and not v.get("times") and rng.random() < 0.05:
            v["attrs"]["units"] = rng.choice((1, 2, 0.5))
            ctx.feature("units are a number")
    path = ctx.path("in.nc")
    nc.write(path, ds)
    route = rng.choice(("file", "file", "file", "memory", "csv"))
    ctx.seen(repr((ds, route)))
    ctx.sample = repr((ds["globals"], route))
    fn, ext = nappy.convertNCToNA, ".na"
    if route == "memory":
        fn = in_memory
        ctx.feature("in memory")
    files = must("conversion", fn, path, ctx.path("out" + ext))
    specs = []
    for f in files:
        spec = drop_time(nc2na.parse_file(f))
        where = os.path.basename(f)
        specs.append(spec)
        judge_text(ds, spec, where, ctx)
        if (spec["ivol"], spec["nvol"]) != (1, 1):
            raise Violation("%s: volume %r of %r" % (where, spec["ivol"], spec["nvol"]))
        known = nc2na.by_name(ds)
        for name, kind, n in nc2na.variables_of(spec):
            if name not in known:
                raise Violation("%s: the name %r (with units) is not that of any variable" % (where, name))
            ctx.count("names with units compared")
        judge_variables(ds, spec, where, ctx)
        judge_columns(spec, where, ctx)
        judge_date(ds, spec, where, ctx)
        axes = {nc.dim_na_name(d) for d in ds["dims"] if not d.get("nocoord")}
        if not set(spec["xname"]) <= axes:
            raise Violation("%s: the axes are %r, expected among %r" % (where, spec["xname"], sorted(axes)))
    if len(files) > 1:
        ctx.feature("several files")

    ov = overrides_for(rng, g, specs, ctx)
    given = {k: list(v) if isinstance(v, list) else v for k, v in ov.items()}
    ctx.seen(repr(ov))
    if route == "csv":
        outs = must("conversion with %r" % ov, nappy.convertNCToCSV, path, ctx.path("out.csv"), na_items_to_override=ov)
        ctx.feature("csv")
        head = [open(f).read().splitlines() for f in outs]
        for f, h in zip(outs, head):
            for key, line in (("ONAME", 1), ("ORG", 2), ("SNAME", 3), ("MNAME", 4)):
                if key in ov and norm(h[line]) != norm(ov[key]):
                    raise Violation("%s: %s is %r, given as %r" % (os.path.basename(f), key, h[line], ov[key]))
        return
    outs = must("conversion with %r" % ov, fn, path, ctx.path("over" + ext), na_items_to_override=ov)
    if ov != given:
        raise Violation("the caller's overrides have changed: %r, given were %r" % (ov, given))
    if len(outs) != len(files):
        raise Violation("with overrides there are %d files, without %d" % (len(outs), len(files)))
    for f, plain in zip(outs, specs):
        spec = drop_time(nc2na.parse_file(f))
        judge_override(ov, plain, spec, os.path.basename(f), ctx)
        judge_columns(spec, os.path.basename(f), ctx)
