"""
NetCDF contents ("ds"), independent of nappy and xarray: random ones, and how to write and read
them with the netCDF4 library alone.

    dims      [{name, units, long_name, standard_name, values (floats, as stored), dtype, time, calendar,
                unlimited, nocoord}]
    vars      [{name, dims [names], dtype, data (flat list, None where missing), fill, fillattr, attrs {},
                pack (scale, offset) or None, aux}]
    globals   {name: text or number}

`aux` marks variables that are auxiliary coordinates of others. The best name of a variable (the one NASA
Ames names are to have) is given by na_name.
"""

import re

import numpy as np
import netCDF4

from mon.model import Gen

VWORDS = ("ozone", "temp", "u_wind", "v_wind", "pressure", "humidity", "no2", "rain", "cloud", "flux", "qv", "snow",
          "albedo", "co", "ch4", "index", "count", "err")
UNITS = ("K", "hPa", "m s-1", "ppbv", "%", "1", "kg m-2", "degC", "mol mol-1", "W m-2")
CALENDARS = ("standard", "gregorian", "proleptic_gregorian", "noleap", "365_day", "360_day")
UNDATED = ("s", "hours", "days", None, "seconds since midnight", "days since launch", "months since 2001-01-01",
           "hours since 00:00:00 on the day", "days since 0000-01-01")
DATED = re.compile(r"\s*(seconds|minutes|hours|days) since (?!0000)\d{4}-")
TIME_UNITS = ("hours since 2001-02-03 00:00:00", "days since 1999-12-30", "seconds since 2010-06-15 12:00:00",
              "minutes since 1987-07-01 00:30:00", "days since 1900-01-01 00:00:00", "hours since 1970-01-01T00:00:00")
FILLS = (-9999.0, -999.0, 9999.0, 99999.0, -99999.0, 32767.0)
FEW_FILLS = {"i1": (-128.0, -1.0, 127.0), "u1": (255.0, 0.0), "u2": (9999.0, 65535.0), "u4": (9999.0, 4294967295.0)}
RANGES = {"i1": (1, 126), "u1": (1, 254), "u2": (0, 900), "u4": (0, 900)}
FLOAT_FILLS = (-1e20, 1e20, 9.969209968386869e+36, -999.9, 1e36, -9999.99)
FORMATS = ("NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET")


class NcGen:
    def __init__(self, rng, dates=True):
        self.rng = rng
        self.dates = dates
        self.g = Gen(rng, digits=6)
        self.used = set()
        self.note = None
        self._n = 0

    def id(self, words=VWORDS):
        r = self.rng
        while True:
            s = r.choice(words)
            if r.random() < 0.5:
                s += str(r.randint(0, 9))
            if r.random() < 0.2:
                s = s.capitalize()
            if s.lower() not in self.used:
                self.used.add(s.lower())
                return s

    def words(self, n=3):
        """Unique descriptive text that has no parentheses."""
        r = self.rng
        self._n += 1
        ws = [r.choice(("mean", "surface", "air", "of", "total", "ozone", "temperature", "in", "column", "H2O", "at",
                        "screen", "5%", "low-level", "x/y", "'raw'", "A,B")) for _ in range(r.randint(0, n))]
        ws.insert(r.randint(0, len(ws)), "q%d" % self._n)
        return " ".join(ws)

    def line(self):
        r = self.rng
        while True:
            s = self.g.text(7)
            if "  " not in s and "====" not in s:
                return s

    # ------------------------------------------------------------------ dimensions

    def dim(self, name, n, kind=None):
        r = self.rng
        kind = kind or r.choice(("regular", "regular", "regular", "irregular", "int", "f4"))
        d = {"name": name, "dtype": "f8", "time": False, "unlimited": r.random() < 0.1, "long_name": None,
             "standard_name": None, "axis": None}
        vals, dx = self.g.axis(n, uniform=kind != "irregular")
        if kind == "int":
            a, s = r.randint(-300, 300), r.choice((1, 2, 5, 10, -1, -3))
            vals = [float(a + i * s) for i in range(n)]
            d["dtype"] = r.choice(("i4", "i2", "i8"))
            if n < 40 and r.random() < 0.35:           # of one byte, or without a sign
                d["dtype"] = r.choice(("i1", "u1", "u1", "u2", "u4"))
                s = max(-3, min(s, 5))
                a = r.randint(max(0, -s) * n, 120 - max(0, s) * n) if d["dtype"] == "i1" and 5 * n < 100 else \
                    r.randint(max(0, -s) * n, 250 - max(0, s) * n)
                if d["dtype"] == "i1" and a + max(0, s) * n > 126:
                    d["dtype"] = "u1"
                vals = [float(a + i * s) for i in range(n)]
        elif kind == "f4":
            d["dtype"] = "f4"
            vals = [float(np.float32(v)) for v in vals]
        if kind in ("regular", "irregular") and r.random() < 0.06:      # close to each other
            vals = [v * 2.0 ** -14 for v in vals]
        d["values"] = vals
        d["units"] = r.choice(("m", "km", "hPa", "degrees_north", "degrees_east", "1", "level", None))
        if r.random() < 0.6:
            d["long_name"] = self.words(2)
        if name.startswith("time"):
            d["time"] = True
            d["calendar"] = r.choice(CALENDARS)
            d["units"] = r.choice(TIME_UNITS)
            step = r.choice((0.25, 0.5, 1.0, 6.0, 30.0))
            k0 = r.randint(0, 50)
            ks = [k0 + i for i in range(n)] if kind != "irregular" else \
                [k0 + k for k in sorted(r.sample(range(n * 3 + 1), n))]
            d["values"], d["dtype"] = [k * step for k in ks], "f8"
            if r.random() < 0.08:           # the latest first
                d["values"].reverse()
            if r.random() < 0.3:
                d["dtype"] = r.choice(("i4", "i8", "f4")) if step >= 1 else "f4"
            d["standard_name"] = r.choice((None, "time"))
            d["axis"] = r.choice((None, "T"))
            if r.random() < 0.1:            # times without a date
                d["time"], d["calendar"], d["units"] = False, None, r.choice(UNDATED)
        elif name.startswith("lat"):
            d["units"] = "degrees_north"
            d["standard_name"] = r.choice((None, "latitude"))
        elif name.startswith("lon"):
            d["units"] = "degrees_east"
            d["standard_name"] = r.choice((None, "longitude"))
        elif name.startswith("lev"):
            d["axis"] = r.choice((None, "Z"))
        return d

    # ------------------------------------------------------------------ variables

    def var(self, dims, alldims, name=None):
        r = self.rng
        v = {"name": name or self.id(), "dims": list(dims), "pack": None, "aux": False, "attrs": {}}
        v["dtype"] = r.choice(("f8", "f8", "f8", "f4", "i4", "i2"))
        if v["dtype"][0] == "i" and r.random() < 0.4:
            v["dtype"] = r.choice(("i1", "u1", "u2", "u4", "i8"))
        size = 1
        for d in dims:
            size *= len([x for x in alldims if x["name"] == d][0]["values"])
        isint = v["dtype"][0] in "iu"
        v["fillattr"] = r.choice((None, "_FillValue", "_FillValue", "_FillValue", "missing_value", "both"))
        v["fill"] = None
        if v["fillattr"]:
            v["fill"] = r.choice(FEW_FILLS.get(v["dtype"], [f for f in FILLS if v["dtype"] != "i2" or abs(f) < 32768]) if isint
                                 else FILLS + FLOAT_FILLS)
            if v["dtype"] == "f4":
                v["fill"] = float(np.float32(v["fill"]))
        if isint:
            low, high = RANGES.get(v["dtype"], (-900, 900))
            vals = [float(r.randint(low, high)) for _ in range(size)]
            if v["fillattr"] and r.random() < 0.3:
                v["pack"] = (r.choice((0.01, 0.5, 2.0)), r.choice((0.0, 10.0, -273.0)))
        else:
            vals = [self.value() for _ in range(size)]
            if v["dtype"] == "f4":
                vals = [float(np.float32(x)) for x in vals]
        if v["fillattr"]:
            p = r.choice((0, 0.1, 0.3))
            vals = [None if r.random() < p else x for x in vals]
        elif not isint and r.random() < 0.3:
            vals = [None if r.random() < 0.1 else x for x in vals]
            v["nan"] = True
        if v["pack"] and v["dtype"] != "i1" and v["dtype"] != "u1" and r.random() < 0.4:
            # the missing value (of the packed numbers) is also a number once they are unpacked
            near = {x * v["pack"][0] + v["pack"][1] for x in vals if x is not None}
            near = [x for x in near if x == int(x) and x not in vals and (x >= 0 or v["dtype"][0] == "i")]
            if near:
                v["fill"], v["collision"] = r.choice(sorted(near)), True
        v["data"] = vals
        k = r.random()
        if k < 0.7:
            v["attrs"]["long_name"] = self.words()
        if k < 0.1 or 0.7 < k < 0.8:
            v["attrs"]["standard_name"] = "std_%s" % v["name"]
        if 0.78 < k < 0.9:
            v["attrs"]["title"] = self.words()
        if r.random() < 0.8:
            v["attrs"]["units"] = r.choice(UNITS)
        if r.random() < 0.3:
            v["attrs"]["cell_methods"] = "time: mean"
        if r.random() < 0.2:
            # sometimes the same as that of another variable, sometimes of several lines
            self.note = self.note if self.note and r.random() < 0.4 else \
                "\n".join(self.line() for _ in range(r.choice((1, 1, 1, 1, 1, 1, 1, 2))))
            v["attrs"]["note"] = self.note
        if r.random() < 0.1:
            v["attrs"]["valid_level"] = float(r.randint(1, 50))
        k = r.random()
        if self.dates and k < 0.06:
            self.times(v)
        elif k > 0.95:
            # flags, as Xarray writes boolean values
            v.update(dtype="i1", fillattr=None, fill=None, pack=None, nan=False, flags=True)
            v["data"] = [float(r.random() < 0.5) for _ in v["data"]]
        return v

    def times(self, v):
        """Makes the values of a variable times (with or without a date)."""
        r = self.rng
        v.update(dtype=r.choice(("f8", "f8", "i4", "f4")), pack=None, nan=False, flags=False)
        v["data"] = [None if x is None and v["fillattr"] else float(r.randint(0, 2000)) / (4 if v["dtype"] == "f8" else 1)
                     for x in v["data"]]
        if v["fillattr"]:
            v["fill"] = r.choice((-999.0, -9999.0, 99999.0))
        v["attrs"]["units"] = r.choice(TIME_UNITS[:5])
        if r.random() < 0.3:
            v["attrs"]["calendar"] = r.choice(CALENDARS)
        if r.random() < 0.3:
            v["attrs"]["standard_name"] = r.choice(("time", "forecast_reference_time"))
            if r.random() < 0.3:
                v["attrs"]["units"] = r.choice(("hours", "s", "days"))
                v["attrs"].pop("calendar", None)
        # the only one of its name
        v["attrs"]["long_name"] = self.words()
        v["times"] = True

    def value(self):
        r = self.rng
        k = r.random()
        if k < 0.1:
            return 0.0
        if k < 0.8:
            return float("%.6g" % r.uniform(-500, 500))
        return float("%.5fe%d" % (r.uniform(-9.9, 9.9), r.randint(-20, 1)))

    # ------------------------------------------------------------------ datasets

    def dataset(self, maxrank=4, time_first=None, scalars=True, extra=True, onlyrank=None):
        r = self.rng
        self.used = set()
        pool = ["time", "lev", "lat", "lon"]
        if r.random() < 0.3:
            pool = ["x", "y", "z", "ens"]
        if r.random() < 0.25:
            r.shuffle(pool)
        rank = onlyrank or r.choice([k for k in (1, 1, 1, 2, 2, 2, 3, 3, 4) if k <= maxrank])
        names = [p for p in pool if r.random() < 0.8][:rank]
        while len(names) < rank:
            names.append([p for p in pool if p not in names][0])
        if time_first and "time" not in names:
            names[0] = "time"
        if time_first and "time" in names:
            names.remove("time")
            names.insert(0, "time")
        self.used.update(p.lower() for p in pool)
        big = 30 if rank == 1 else {2: 12, 3: 6, 4: 4}[rank]
        much = r.random()               # sometimes much more of something than usual
        if much < 0.01:
            big *= {1: 20, 2: 5, 3: 2, 4: 2}[rank]
        dims = [self.dim(n, r.randint(1, big)) for n in names]
        for i, d in enumerate(dims):
            if i:
                d["unlimited"] = False
        alike = rank > 1 and r.random() < 0.15
        if alike:
            # two axes of the same length, sometimes with the same values
            a, b = r.sample(range(rank), 2)
            d = self.dim(names[b], len(dims[a]["values"]))
            if not d["time"] and not dims[a]["time"] and r.random() < 0.4:
                d["values"], d["dtype"] = list(dims[a]["values"]), dims[a]["dtype"]
            d["unlimited"] = dims[b]["unlimited"] and b == 0
            dims[b] = d
        ds = {"dims": dims, "vars": [], "globals": {}}
        main = [d["name"] for d in dims]
        for _ in range(r.choice((1, 1, 2, 3, 4)) if not 0.01 < much < 0.02 else r.randint(9, 25)):
            ds["vars"].append(self.var(main, dims))
        if extra and rank > 1 and r.random() < 0.4:
            for _ in range(r.randint(1, 2)):
                ds["vars"].append(self.var(main[:1], dims))         # may become auxiliary
        if extra and rank > 1 and r.random() < 0.4:
            sub = [n for n in main if r.random() < 0.6] or main[-1:]
            ds["vars"].append(self.var(sub, dims))                  # fewer dimensions
        if extra and rank > 1 and r.random() < (0.8 if alike else 0.1):
            ds["vars"].append(self.var(r.sample(main, rank), dims))     # the axes in another order
        if extra and r.random() < 0.35:
            # another axis, sometimes of the same length, sometimes with the same values
            like = r.choice(dims)
            n = len(like["values"]) if r.random() < 0.6 else r.randint(1, 8)
            name = self.id(("alt", "station", "band", "zed", "time_b")) if not like["time"] else "time_b"
            d = self.dim(name, n)
            d["unlimited"] = False
            k = r.random()
            if n == len(like["values"]) and k < 0.6 and not d["time"]:
                d["values"], d["dtype"], d["units"] = list(like["values"]), like["dtype"], like["units"]
                if like["time"]:
                    d["time"], d["calendar"] = True, like["calendar"]
                if k < 0.3:
                    i = r.randrange(n)
                    d["values"][i] = d["values"][i] + (0.5 if d["dtype"][0] == "f" else 1)
                    if n > 1 and len(set(d["values"])) < n:
                        d["values"] = list(like["values"])
            dims.append(d)
            self.used.add(name.lower())
            other = [name if m == like["name"] else m for m in main]
            for _ in range(r.randint(1, 2)):
                ds["vars"].append(self.var(r.choice((other, [name])), dims))
        if extra and 0.02 < much < 0.03:
            for _ in range(r.randint(9, 14)):       # many output files
                d = self.dim(self.id(), r.randint(1, 6))
                d["unlimited"] = False
                dims.append(d)
                ds["vars"].append(self.var([d["name"]], dims))
        if scalars and r.random() < 0.35:
            for _ in range(r.randint(1, 2)):
                v = self.var([], dims)
                v["data"] = [x if x is not None else 3.0 for x in v["data"]]
                ds["vars"].append(v)
        if extra and r.random() < 0.15:
            aux = self.var(main[-1:], dims)
            aux["aux"] = True
            ds["vars"].append(aux)
            for v in ds["vars"]:
                if not v["aux"] and v["dims"] == main and r.random() < 0.8:
                    v["attrs"]["coordinates"] = aux["name"]
        r.shuffle(ds["vars"])
        self.globals(ds)
        ds["format"] = r.choice(FORMATS)
        only_types_of_format(ds)
        if ds["format"].startswith("NETCDF3"):
            seen = False
            for d in dims:          # one unlimited dimension, which has to be the first
                d["unlimited"] = d["unlimited"] and not seen and all(
                    v["dims"].index(d["name"]) == 0 for v in ds["vars"] if d["name"] in v["dims"])
                seen = seen or d["unlimited"]
        return ds

    def bounds(self, ds):
        """Cell bounds of one of the axes, on a dimension without coordinates."""
        d = self.rng.choice(ds["dims"])
        if not any(x["name"] == "bnds" for x in ds["dims"]):
            ds["dims"].append({"name": "bnds", "values": [0.0, 1.0], "unlimited": False, "nocoord": True, "time": False,
                               "dtype": "f8", "units": None})
        if d.get("nocoord") or d.get("bounds"):
            return
        d["bounds"] = d["name"] + "_bnds"
        v = self.var([d["name"], "bnds"], ds["dims"], name=d["bounds"])
        v.update(dtype="f8", fill=None, fillattr=None, pack=None, attrs={}, isbounds=True,
                 data=[x + h for x in d["values"] for h in (-0.5, 0.5)])
        ds["vars"].append(v)

    def globals(self, ds):
        r = self.rng
        for k, p in (("title", 0.8), ("source", 0.8), ("institution", 0.8), ("Conventions", 0.5), ("references", 0.3),
                     ("comment", 0.5), ("history", 0.5)):
            if r.random() < p:
                ds["globals"][k] = self.line()
        for _ in range(r.choice((0, 0, 1, 2, 3))):
            ds["globals"]["att_%d" % r.randint(0, 99)] = self.line()
        for k in ("comment", "history"):
            if k in ds["globals"] and r.random() < 0.4:
                ds["globals"][k] = "\n".join(self.line() for _ in range(r.randint(2, 4)))
        if r.random() < 0.2:
            ds["globals"]["number"] = 4.5
        return ds


def dim_of(ds, name):
    return [d for d in ds["dims"] if d["name"] == name][0]


def only_types_of_format(ds):
    if ds.get("format", "NETCDF4") != "NETCDF4":
        for x in ds["dims"] + ds["vars"]:
            if x["dtype"] in ("u1", "u2", "u4", "i8"):
                if x.get("fill") and x["fill"] > 2e9:
                    x["fill"] = 9999.0
                x["dtype"] = "i4"


def write(path, ds):
    only_types_of_format(ds)
    f = netCDF4.Dataset(path, "w", format=ds.get("format", "NETCDF4"))
    f.set_fill_off()
    for d in ds["dims"]:
        f.createDimension(d["name"], None if d["unlimited"] else len(d["values"]))
        if d.get("nocoord"):
            continue
        v = f.createVariable(d["name"], d["dtype"], (d["name"],))
        for k in ("units", "long_name", "standard_name", "axis", "calendar", "bounds"):
            if d.get(k):
                v.setncattr(k, d[k])
        v[:] = np.array(d["values"], dtype=d["dtype"])
    for spec in ds["vars"]:
        fill = spec["fill"]
        own = {}
        if spec["fillattr"] in ("_FillValue", "both"):
            own["fill_value"] = np.dtype(spec["dtype"]).type(fill)
        v = f.createVariable(spec["name"], spec["dtype"], tuple(spec["dims"]), **own)
        v.set_auto_maskandscale(False)
        if spec["fillattr"] in ("missing_value", "both"):
            v.setncattr("missing_value", np.dtype(spec["dtype"]).type(fill))
        if spec["pack"]:
            v.scale_factor, v.add_offset = spec["pack"]
        for k, a in spec["attrs"].items():
            v.setncattr(k, a)
        if spec.get("flags"):
            v.setncattr("dtype", "bool")
        shape = [len(dim_of(ds, d)["values"]) for d in spec["dims"]]
        raw = [(float("nan") if fill is None else fill) if x is None else x for x in spec["data"]]
        v[...] = np.array(raw, dtype="f8").astype(spec["dtype"]).reshape(shape)
    for k, a in ds["globals"].items():
        f.setncattr(k, a)
    f.close()


def decoded(spec):
    """The values of a variable with its packing undone; None where missing."""
    if not spec["pack"]:
        return list(spec["data"])
    a, b = spec["pack"]
    return [None if x is None else x * a + b for x in spec["data"]]


def na_name(name, attrs):
    """The name a NASA Ames header gives to it: the most descriptive one, with units."""
    for k in ("long_name", "standard_name", "title"):
        if attrs.get(k):
            best = attrs[k]
            break
    else:
        best = name
    units = str(attrs.get("units") or "").strip()
    return "%s (%s)" % (best, units) if units else best


def var_na_name(spec):
    return na_name(spec["name"], spec["attrs"])


def dim_na_name(d):
    return na_name(d["name"], d)


class Nc:
    """What a NetCDF file holds, read with netCDF4 alone: masked where declared missing."""

    def __init__(self, path):
        f = netCDF4.Dataset(path)
        try:
            self.globals = {k: f.getncattr(k) for k in f.ncattrs()}
            self.dims = {k: len(d) for k, d in f.dimensions.items()}
            self.vars = {}
            for name, v in f.variables.items():
                v.set_always_mask(True)
                self.vars[name] = {"dims": v.dimensions, "data": np.ma.array(v[...]), "dtype": v.dtype,
                                   "attrs": {k: v.getncattr(k) for k in v.ncattrs()}}
        finally:
            f.close()

    def coords(self):
        return [n for n, v in self.vars.items() if v["dims"] == (n,)]

    def data_vars(self):
        return [n for n in self.vars if n not in self.coords()]

    def flat(self, name):
        """Values, None where missing (declared, or not a number)."""
        data = self.vars[name]["data"]
        mask = np.ma.getmaskarray(data).ravel()
        vals = np.ma.getdata(data).ravel()
        return [None if m or x != x else float(x) for m, x in zip(mask, vals)]

    def axis(self, dim):
        return self.flat(dim)


def everything(path):
    """What a NetCDF file holds, as text."""
    with netCDF4.Dataset(path) as d:
        d.set_auto_mask(False)
        atts = {k: str(d.getncattr(k)) for k in d.ncattrs()}
        if "history" in atts:
            atts["history"] = re.sub(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d", "TIME", atts["history"])
        return repr((sorted(atts.items()), [(k, len(v)) for k, v in d.dimensions.items()],
                     [(k, v.dimensions, str(v.dtype), [(a, str(v.getncattr(a))) for a in v.ncattrs()], v[...].tolist())
                      for k, v in d.variables.items()]))


def open_arrays(path, use_cftime=True):
    """The dataset as a user has it, with the dates of the axes (others can be missing, which Xarray does not support)."""
    import xarray as xr
    with netCDF4.Dataset(path) as f:
        dates = {k: k in f.dimensions and DATED.match(str(getattr(v, "units", ""))) is not None
                 for k, v in f.variables.items()}
    return xr.open_dataset(path, decode_times=dates, use_cftime=use_cftime, decode_timedelta=False)
