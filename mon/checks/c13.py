"""C13: NetCDF to NASA Ames keeps every value, coordinate and missing mark."""

from nappy.nc_interface.xarray_to_na import XarrayDatasetToNA

from mon import nc, nc2na
from mon.core import Violation, must

CASES = {"quick": 1600, "thorough": 30000}
RULE = ("Random NetCDF files (1 to 4 dimensions, packed, masked, NaN, integer and single precision data, times in "
        "several calendars, regular, irregular, descending and one-valued axes, variables on fewer or other axes) are "
        "written with netCDF4 alone and converted with convertNCToNA (or the class for datasets); each output file is taken apart by the "
        "independent reader and every variable in it is compared, position by position, with the NetCDF content.")
REQUIRED = ["dataset", "rank-1", "rank-2", "rank-3", "rank-4", "time axis", "packed", "missing marks compared", "aux variables",
            "several files", "time not first", "near-identical axes", "ffi-1001", "ffi-2010", "ffi-3010",
            "ffi-4010", "flags", "unpacked value like the missing value", "time valued", "times of rank 0", "times of rank 1", "times of rank 2", "times, some missing"] + ["%s of %s" % (w, t) for w in ("axis", "values")
                                          for t in ("f8", "f4", "i8", "i4", "i2", "i1", "u1", "u2", "u4")]
ASSUMPTIONS = ["values of packed variables are compared to 1e-5 relative (xarray may unpack in single precision)"]
EOF_MONITOR = False


def features(ds, ctx):
    for v in ds["vars"]:
        if v["dims"]:
            ctx.feature("rank-%d" % len(v["dims"]))
        if v["pack"]:
            ctx.feature("packed")
        if v.get("collision") and not v.get("times") and not v.get("flags") and v["fill"] in [x for x in nc.decoded(v)]:
            ctx.feature("unpacked value like the missing value")
        if v.get("flags"):
            ctx.feature("flags")
        for k, d in enumerate(v["dims"]):
            if nc.dim_of(ds, d)["time"]:
                ctx.feature("time axis" if k == 0 else "time not first")
    for a in ds["dims"]:
        for b in ds["dims"]:
            if a is not b and len(a["values"]) == len(b["values"]) and \
                    sum(x != y for x, y in zip(a["values"], b["values"])) < 2:
                ctx.feature("near-identical axes")


def add_time_variable(rng, ds, g):
    """A variable whose values are times."""
    d = rng.choice([d for d in ds["dims"]])
    v = g.var([d["name"]], ds["dims"])
    v.update(dtype="f8", fill=None, fillattr=None, pack=None, flags=False)
    v["data"] = [float(rng.randint(0, 2000)) / 4 for _ in v["data"]]
    v["attrs"] = {"long_name": g.words(), "units": rng.choice(nc.TIME_UNITS[:5])}
    ds["vars"].append(v)


def from_dataset(path, out, **kw):
    """The class that takes a whole dataset."""
    with nc.open_arrays(path) as ds:
        c = XarrayDatasetToNA(ds)
        c.convert()
        c.writeNAFiles(out, **kw)
        return c.output_files_written


def case(rng, i, ctx):
    g = nc.NcGen(rng)
    ds = g.dataset()
    if rng.random() < 0.1:
        add_time_variable(rng, ds, g)
        ctx.feature("time valued")
    path = ctx.path("in.nc")
    nc.write(path, ds)
    features(ds, ctx)
    for v in ds["vars"]:
        if v.get("times"):
            ctx.feature("times of rank %d" % len(v["dims"]), *["times, some missing"] * (None in v["data"]))
    ctx.feature(*["axis of " + d["dtype"] for d in ds["dims"]], *["values of " + v["dtype"] for v in ds["vars"]])
    fmt = rng.choice(nc2na.FORMATS)
    kw = {}
    if fmt != "%.10g":
        kw["float_format"] = fmt
    if rng.random() < 0.3:
        kw["delimiter"] = rng.choice(("\t", " ", "  "))
    ctx.seen(repr((ds, kw)))
    ctx.sample = repr((ds, kw))
    if rng.random() < 0.15:
        ctx.feature("dataset")
        files = must("XarrayDatasetToNA", from_dataset, path, ctx.path("out.na"), **kw)
    else:
        files = nc2na.convert(path, ctx.path("out.na"), **kw)
    if not any(v["dims"] for v in ds["vars"]):
        return
    found = []
    for f in files:
        spec = nc2na.parse_file(f)
        ctx.feature("ffi-%d" % spec["ffi"])
        found += nc2na.judge_file(ds, spec, fmt, ctx, where="%s: " % f.rsplit("/", 1)[-1])
    if len(files) > 1:
        ctx.feature("several files")
    names = [nc.var_na_name(v) for v in ds["vars"] if v["dims"]]
    if sorted(found) != sorted(names):
        raise Violation("written were %r, the file holds %r" % (sorted(found), sorted(names)))
    if not found:
        raise Violation("no variable was written")
