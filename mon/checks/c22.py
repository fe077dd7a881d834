"""C22: in-memory conversions agree with the file-based ones."""

import builtins
import copy
import os
import re

import cftime
import numpy as np
import xarray as xr

import nappy
from nappy.nc_interface.xarray_to_na import XarrayDatasetToNA

from mon import model, nautil, nc, render
from mon.checks import c11, c12
from mon.core import Violation, attempt, must

CASES = {"quick": 1100, "thorough": 16000}
RULE = ("(1) Arrays are built in memory from random contents (dates of both types, with and without stated units, missing "
        "values, stated and unstated missing values), converted with convertXarrayObjectsToNA/CSV and saved with xarray "
        "and converted with convertNCToNA/CSV: files must agree byte by byte but for the time of conversion. (2) Random "
        "NASA Ames files are read with readXarrayObjectsFromNA and getXarrayVariableFromNA and converted with convertNAToNC; "
        "names, dimensions, values, coordinates and attributes are compared with what netCDF4 reads. (3) writeNADictToNC "
        "is compared with writing the dictionary and converting. Arrays, attributes, encodings, lists and dictionaries "
        "of the caller are compared with deep copies.")
REQUIRED = ["arrays to NA", "arrays to CSV", "datetime64", "cftime", "units inferred", "options", "overrides", "opened file",
            "read all", "read one by index", "read one by name", "dict to NC", "dict to NC append", "missing",
            "global attributes compared", "several files", "unchanged callers", "round trip", "dataset to NA", "dates of type datetime64",
            "dates of type cftime", "missing dates"]
EOF_MONITOR = False


def init_worker():
    builtins.input = lambda *args: ""       # the user leaves the time units blank


# ---------------------------------------------------------------- arrays in memory

def memory(rng, ds, ctx):
    """{name: DataArray} of a random content, made without any file."""
    coords = {}
    for d in ds["dims"]:
        attrs = {k: d[k] for k in ("long_name", "standard_name", "axis") if d.get(k)}
        encoding = {}
        if d["time"]:
            dates = cftime.num2date(d["values"], d["units"].replace("T", " "), calendar=d["calendar"],
                                    only_use_cftime_datetimes=True)
            dates = np.atleast_1d(dates)
            if d["calendar"] in ("standard", "gregorian", "proleptic_gregorian") and rng.random() < 0.6:
                values = np.array([np.datetime64(x.isoformat(), "ns") for x in dates])
                ctx.feature("datetime64")
            else:
                values = dates
                ctx.feature("cftime")
            if rng.random() < 0.6:
                encoding["units"] = d["units"]
                if rng.random() < 0.6:
                    encoding["calendar"] = d["calendar"]
            else:
                ctx.feature("units inferred")
        else:
            values = np.array(d["values"], dtype=d["dtype"])
            if d["units"]:
                attrs["units"] = d["units"]
        c = xr.DataArray(values, dims=[d["name"]], name=d["name"], attrs=attrs)
        c = xr.DataArray(values, dims=[d["name"]], coords={d["name"]: c}, name=d["name"], attrs=attrs)
        coords[d["name"]] = (c, encoding)
    out = {}
    for v in ds["vars"]:
        shape = [len(nc.dim_of(ds, d)["values"]) for d in v["dims"]]
        dtype = v["dtype"]
        data = [np.nan if x is None else x for x in v["data"]]
        if None in v["data"]:
            ctx.feature("missing")
            dtype = dtype if dtype[0] == "f" else "f8"
        attrs, encoding, values = dict(v["attrs"]), {}, np.array(data, dtype=dtype).reshape(shape)
        if v.get("times") and " since " in attrs["units"] and rng.random() < 0.8:
            values, attrs, encoding = as_dates(rng, v, values, attrs, ctx)
        da = xr.DataArray(values, dims=v["dims"], name=v["name"],
                          coords={d: coords[d][0] for d in v["dims"]}, attrs=attrs)
        da.encoding.update(encoding)
        for d in v["dims"]:
            da[d].encoding.update(coords[d][1])
            da.coords[d].encoding.update(coords[d][1])
        if v["fill"] is not None and dtype[0] == "f":
            da.encoding["_FillValue"] = np.dtype(dtype).type(v["fill"])
        out[v["name"]] = da
    return out


def as_dates(rng, v, values, attrs, ctx):
    """Times as a user has them in memory: as dates, with their units and calendar as the encoding."""
    var = xr.Variable(v["dims"], values, attrs)
    try:
        var = xr.conventions.decode_cf_variable(v["name"], var, use_cftime=rng.choice((True, None) if None not in v["data"] else
                                                                                     (None,)), decode_timedelta=False).load()
    except (ValueError, OverflowError):
        return values, attrs, {}
    ctx.feature("dates of type " + ("datetime64" if var.dtype.kind == "M" else "cftime"))
    if None in v["data"]:
        ctx.feature("missing dates")
    return var.values, dict(var.attrs), {k: var.encoding[k] for k in ("units", "calendar") if k in var.encoding}


def snapshot(arrays, attributes):
    def one(a):
        return (a.name, a.dims, str(a.dtype), np.array(a.values, copy=True), dict(a.attrs), dict(a.encoding),
                {k: (np.array(c.values, copy=True), dict(c.attrs), dict(c.encoding)) for k, c in a.coords.items()})
    return [one(a) for a in arrays], [id(a) for a in arrays], copy.deepcopy(attributes)


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        eq = a == b
        if a.dtype.kind in "fM":
            eq = eq | ((a != a) & (b != b))
        return bool(np.all(eq))
    if isinstance(a, (float, np.floating)) and a != a:
        return type(a) is type(b) and bool(b != b)
    return type(a) is type(b) and a == b


def normal(line):
    """Without the time of conversion, and with time units as xarray writes them to a file."""
    line = re.sub(r"^(.*)\d{4}-\d\d-\d\d \d\d:\d\d:\d\d( - Converted)", r"\1TIME\2", line)
    line = re.sub(r"(since \d+-\d+-\d+)T", r"\1 ", line)
    line = re.sub(r"(since \d+-\d+-\d+) 00:00:00(\.0+)?", r"\1", line)
    return line


def text_of(path):
    return [normal(line) for line in open(path).read().split("\n")]


def differ(a, b):
    """Lines that state other items; an item may be written as 4 or 4.0."""
    if a == b:
        return False
    a, b = re.split(r"[\s,]+", a), re.split(r"[\s,]+", b)
    if len(a) != len(b):
        return True
    for x, y in zip(a, b):
        if x != y:
            try:
                if float(x) != float(y):
                    return True
            except ValueError:
                return True
    return False


def compare_files(a, b, adir, bdir, what):
    if [os.path.relpath(f, adir) for f in a] != [os.path.relpath(f, bdir) for f in b]:
        raise Violation("%s: the files are %r in memory, %r from the file" % (what, a, b))
    for fa, fb in zip(a, b):
        ta, tb = text_of(fa), text_of(fb)
        diff = [(x, y) for x, y in zip(ta, tb) if differ(x, y)][:3] or (len(ta) != len(tb) and (len(ta), len(tb)))
        if diff:
            raise Violation("%s: %s differs between memory and file: %r" % (what, os.path.basename(fa), diff),
                            memory="\n".join(ta)[:3000], file="\n".join(tb)[:3000])


def arrays(rng, ctx):
    g = nc.NcGen(rng)
    ds = g.dataset()
    for v in ds["vars"]:
        v["attrs"].pop("coordinates", None)
        v["pack"] = None
    ctx.seen(repr(ds))
    ctx.sample = repr(ds)
    byname = memory(rng, ds, ctx)
    attributes = [(k, v) for k, v in ds["globals"].items()]
    if rng.random() < 0.3:
        attributes.append(("number", rng.choice((5, 2.5, np.float32(0.75), np.int16(7)))))
    attributes = list(dict(attributes).items())
    path = ctx.path("in.nc")
    # as the user would: with the arrays themselves
    saved = xr.Dataset({k: a for k, a in byname.items()}, attrs=dict(attributes))
    for k in saved.coords:
        for a in byname.values():
            if k in a.coords:
                saved[k].encoding = dict(a.coords[k].encoding)
    for k in byname:
        saved[k].encoding = dict(byname[k].encoding)
    saved.to_netcdf(path)
    order = [k for k in xr.open_dataset(path, decode_times=False).variables if k in byname]
    given = [byname[k] for k in order]
    if rng.random() < 0.3:
        opened = nc.open_arrays(path, rng.choice((True, None))) if any(v.get("times") for v in ds["vars"]) or any(d["units"] in nc.UNDATED for d in ds["dims"]) else \
            xr.open_dataset(path, use_cftime=rng.choice((True, None)), decode_timedelta=False)
        if rng.random() < 0.5:
            opened.load()
        given = [opened[k] for k in order]
        ctx.feature("opened file")
    kw = {}
    if rng.random() < 0.5:
        ctx.feature("options")
        for k, choices in (("float_format", ("%.17g", "%12.4e")), ("delimiter", ("\t", " ")), ("annotation", (True,)),
                           ("no_header", (True,)), ("size_limit", (2, 7))):
            if rng.random() < 0.35:
                kw[k] = rng.choice(choices)
    if rng.random() < 0.3:
        kw["na_items_to_override"] = {k: rng.choice((g.line(), g.line())) for k in
                                      rng.sample(("ONAME", "ORG", "SNAME", "MNAME"), 2)}
        if rng.random() < 0.5:
            kw["na_items_to_override"]["NCOM"] = [g.line()]
        ctx.feature("overrides")
    if rng.random() < 0.15:
        kw["requested_ffi"] = rng.choice((1001, 2010, 2110, 2310, 1020, 3010))
    csv = rng.random() < 0.2
    if csv:
        kw.pop("delimiter", None)
    ext = ".csv" if csv else ".na"
    before = snapshot(given, attributes)
    kw_before = copy.deepcopy(kw)
    adir, bdir = os.path.join(ctx.dir, "a"), os.path.join(ctx.dir, "b")
    os.mkdir(adir)
    os.mkdir(bdir)
    fns = (nappy.convertXarrayObjectsToCSV, nappy.convertNCToCSV) if csv else \
        (nappy.convertXarrayObjectsToNA, nappy.convertNCToNA)
    mem, mem_exc = attempt(fns[0], given, attributes, os.path.join(adir, "o" + ext), **kw)
    kw2 = copy.deepcopy(kw_before)
    fil, fil_exc = attempt(fns[1], path, os.path.join(bdir, "o" + ext), **kw2)
    what = "%s(%r)" % (fns[0].__name__, kw_before)
    if (mem_exc is None) != (fil_exc is None):
        raise Violation("%s: %r in memory, %r from the file" % (what, mem_exc or "written", fil_exc or "written"))
    if mem_exc is not None:
        if "requested_ffi" not in kw:
            raise Violation("%s raised %r" % (what, mem_exc))
        ctx.feature("both refused")
        return
    compare_files(mem, fil, adir, bdir, what)
    if not same(before, snapshot(given, attributes)) or not same(kw, kw_before):
        raise Violation("%s changed the caller's arrays, attributes or options" % what, before=before,
                        after=snapshot(given, attributes))
    ctx.feature("unchanged callers", "arrays to CSV" if csv else "arrays to NA")
    if len(mem) > 1:
        ctx.feature("several files")
    ctx.count("files compared", len(mem))
    if rng.random() < 0.3:          # and again, with the same objects
        os.mkdir(os.path.join(ctx.dir, "c"))
        again = must(what, fns[0], given, attributes, os.path.join(ctx.dir, "c", "o" + ext), **kw)
        compare_files(again, fil, os.path.join(ctx.dir, "c"), bdir, what + " again")
    if not csv and rng.random() < 0.5:          # and as a dataset
        os.mkdir(os.path.join(ctx.dir, "d"))
        whole = saved[order]
        if order == [k for k in whole.variables if k in byname]:
            kept = snapshot([whole[k] for k in order], dict(whole.attrs))
            made = must("XarrayDatasetToNA(%r)" % kw_before, from_dataset, whole, os.path.join(ctx.dir, "d", "o" + ext), kw)
            compare_files(made, fil, os.path.join(ctx.dir, "d"), bdir, what + " as a dataset")
            if not same(kept[::2], snapshot([whole[k] for k in order], dict(whole.attrs))[::2]) or not same(kw, kw_before):
                raise Violation("XarrayDatasetToNA(%r) changed the caller's dataset or options" % kw_before)
            ctx.feature("dataset to NA")


def from_dataset(ds, path, kw):
    kw = dict(kw)
    c = XarrayDatasetToNA(ds, **{k: kw.pop(k) for k in ("na_items_to_override", "requested_ffi") if k in kw})
    c.writeNAFiles(path, **kw)
    return c.output_files_written


# ---------------------------------------------------------------- reading into memory

def encoded(da):
    """What netCDF4 would read of the array: values with None where missing."""
    fill = da.encoding.get("_FillValue")
    return [None if x != x or x == fill else float(x) for x in np.asarray(da.values, dtype="f8").ravel()]


def judge_array(da, data, ctx, what):
    if da.name not in data.vars:
        raise Violation("%s: the array is called %r, the NetCDF file holds %r" % (what, da.name, sorted(data.vars)))
    v = data.vars[da.name]
    if tuple(da.dims) != tuple(v["dims"]):
        raise Violation("%s: %s has the dimensions %r in memory, %r in the file" % (what, da.name, da.dims, v["dims"]))
    c11.compare("%s: %s" % (what, da.name), data.flat(da.name), encoded(da))
    for d in da.dims:
        got = [float(x) for x in da.coords[d].values]
        if got != data.flat(d):
            raise Violation("%s: the coordinates %s differ" % (what, d), memory=got, file=data.flat(d))
        judge_attrs(da.coords[d], data.vars[d]["attrs"], what)
    judge_attrs(da, v["attrs"], what)
    ctx.count("arrays compared")


SKIP = {"_FillValue", "missing_value", "calendar", "coordinates", "units"}


def judge_attrs(da, attrs, what):
    for k in sorted((set(da.attrs) | set(attrs)) - SKIP):
        if k not in attrs or k not in da.attrs or not c12.same_att(da.attrs[k], attrs[k]):
            raise Violation("%s: attribute %s of %s is %r in memory, %r in the file" %
                            (what, k, da.name, da.attrs.get(k), attrs.get(k)))
    units = da.attrs.get("units") or da.encoding.get("units") or ""
    if units != attrs.get("units", ""):
        raise Violation("%s: the units of %s are %r in memory, %r in the file" % (what, da.name, units, attrs.get("units")))


def reading(rng, ctx):
    again = rng.random() < 0.35
    s = c12.make(rng, ctx, quarters=again)
    for k in range(len(s["xname"])):
        if not re.match(r"^[^()]*(\([^()]*\))?$", s["xname"][k]):
            s["xname"][k] = rng.choice(c11.AXES)
    text = render.render(s, render.Layout())
    ctx.seen(text)
    ctx.sample = text[:1500]
    path = render.write(ctx.path("in.na"), text)
    out = ctx.path("out.nc")
    must("convertNAToNC", nappy.convertNAToNC, path, out, time_warning=False)
    data = nc.Nc(out)
    if again or rng.random() < 0.5:
        primary, aux, attributes = must("readXarrayObjectsFromNA", nappy.readXarrayObjectsFromNA, path)
        ctx.feature("read all")
        if len(primary) != len(s["vname"]) or len(aux) != len(s.get("aname", ())):
            raise Violation("readXarrayObjectsFromNA gives %d and %d arrays" % (len(primary), len(aux)))
        for n, da in enumerate(primary):
            if c11.find(data, "nasa_ames_var_number", n) != [da.name]:
                raise Violation("array %d is called %r; the file has %r" %
                                (n, da.name, c11.find(data, "nasa_ames_var_number", n)))
        for n, da in enumerate(aux):
            if c11.find(data, "nasa_ames_aux_var_number", n) != [da.name]:
                raise Violation("auxiliary array %d is called %r" % (n, da.name))
        for da in primary + aux:
            judge_array(da, data, ctx, "readXarrayObjectsFromNA")
        attributes = dict(attributes)
        for k in set(attributes) | set(data.globals):
            a, b = attributes.get(k), data.globals.get(k)
            if k == "history" and isinstance(a, str) and isinstance(b, str):
                a, b = (re.sub(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d", "TIME", x) for x in (a, b))
            if k not in attributes or k not in data.globals or not c12.same_att(a, b):
                raise Violation("global attribute %s is %r in memory, %r in the file" % (k, a, b))
            ctx.feature("global attributes compared")
        if again:
            round_trip(rng, ctx, s, primary, aux, attributes, out)
    else:
        n = rng.randrange(len(s["vname"]))
        kind = rng.choice(("index", "name"))
        da = must("getXarrayVariableFromNA", nappy.getXarrayVariableFromNA, path, n if kind == "index" else s["vname"][n])
        if kind == "name":
            n = s["vname"].index(s["vname"][n])
        ctx.feature("read one by " + kind)
        if int(da.attrs.get("nasa_ames_var_number", -1)) != n:
            raise Violation("getXarrayVariableFromNA(%s %d) gives variable %r" % (kind, n, da.attrs))
        name = c11.find(data, "nasa_ames_var_number", n)[0]
        if name != da.name:
            # the names are numbered when several are equal: alone, it need not be
            if not re.fullmatch(re.escape(da.name) + r"_\d+", name):
                raise Violation("getXarrayVariableFromNA gives %r, the file has %r" % (da.name, name))
            da = da.rename(name)
        judge_array(da, data, ctx, "getXarrayVariableFromNA")
    if open(path).read() != text:
        raise Violation("the input file has changed")


def round_trip(rng, ctx, s, primary, aux, attributes, out):
    """The arrays just read, written again, against the NetCDF file converted back."""
    adir, bdir = os.path.join(ctx.dir, "a"), os.path.join(ctx.dir, "b")
    os.mkdir(adir)
    os.mkdir(bdir)
    before = snapshot(primary + aux, attributes)
    mem = must("convertXarrayObjectsToNA", nappy.convertXarrayObjectsToNA, primary + aux, list(attributes.items()),
               os.path.join(adir, "o.na"))
    fil = must("convertNCToNA", nappy.convertNCToNA, out, os.path.join(bdir, "o.na"))
    if not same(before, snapshot(primary + aux, attributes)):
        raise Violation("convertXarrayObjectsToNA changed the caller's arrays or attributes")
    compare_files(mem, fil, adir, bdir, "round trip in memory")
    ctx.feature("round trip")


# ---------------------------------------------------------------- dictionaries

def everything(data):
    out = {}
    for name, v in data.vars.items():
        out[name] = (v["dims"], str(v["dtype"]), data.flat(name), v["attrs"])
    g = dict(data.globals)
    if "history" in g:
        g["history"] = re.sub(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d", "TIME", g["history"])
    # the number of header lines depends on how the file was written
    g.pop("no_of_nasa_ames_header_lines", None)
    return out, g


def equal(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, np.generic, int, float)) and not isinstance(a, bool):
        return c12.same_att(a, b)
    return a == b


def dictionary(rng, ctx):
    s = c11.make(rng, ctx)
    d = nautil.user_dict(rng, s)
    if rng.random() < 0.2:
        del d["FFI"]
    ctx.seen(repr(s))
    ctx.sample = repr(s)
    before = copy.deepcopy(d)
    a, b, na = ctx.path("a.nc"), ctx.path("b.nc"), ctx.path("d.na")
    fresh = copy.deepcopy(d)
    nautil.write_dict(na, fresh, float_format="%.17g")
    _, exc = attempt(nappy.convertNAToNC, na, b, time_warning=False)
    mode = "w"
    if rng.random() < 0.3:
        mode = "a"
    _, exc2 = attempt(nappy.writeNADictToNC, d, a, mode) if mode == "a" else attempt(nappy.writeNADictToNC, d, a)
    if (exc is None) != (exc2 is None):
        raise Violation("writeNADictToNC: %r, converting the file: %r" % (exc2, exc))
    if not equal_dict(before, d):
        raise Violation("writeNADictToNC changed the caller's dictionary")
    if exc is not None:
        raise Violation("convertNAToNC raised %r" % exc)
    x, y = everything(nc.Nc(a)), everything(nc.Nc(b))
    if not equal(x, y):
        raise Violation("writeNADictToNC and converting the file differ", direct=x, converted=y)
    ctx.feature("dict to NC")
    if rng.random() < 0.4:
        t = dict(s)
        t["vname"] = ["added %d (K)" % n for n in range(len(s["vname"]))]
        if "aname" in s:
            t["aname"] = ["aux added %d (K)" % n for n in range(len(s["aname"]))]
        d2 = dict(model.to_dict(t), NLHEAD=1)
        na2 = ctx.path("e.na")
        nautil.write_dict(na2, copy.deepcopy(d2), float_format="%.17g")
        must("convertNAToNC append", nappy.convertNAToNC, na2, b, mode="a", time_warning=False)
        must("writeNADictToNC append", nappy.writeNADictToNC, d2, a, mode="a")
        x, y = everything(nc.Nc(a)), everything(nc.Nc(b))
        if not equal(x, y):
            raise Violation("writeNADictToNC and converting the file differ (append)", direct=x, converted=y)
        ctx.feature("dict to NC append")


def equal_dict(a, b):
    return set(a) == set(b) and all(same(a[k], b[k]) for k in a)


def case(rng, i, ctx):
    k = i % 5
    if k < 2:
        arrays(rng, ctx)
    elif k < 4:
        reading(rng, ctx)
    else:
        dictionary(rng, ctx)
