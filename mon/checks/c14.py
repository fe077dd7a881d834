"""C14: NetCDF to NASA Ames loses no variable and writes the files it names."""

import os
import re

import netCDF4
import numpy as np

import nappy
from nappy.nc_interface import nc_to_na

from mon import nc, nc2na
from mon.core import Violation, must

CASES = {"quick": 1600, "thorough": 25000}
RULE = ("Random NetCDF files whose variables lie on several sets of axes (with variables of no dimensions, cell bounds and "
        "auxiliary coordinates) are converted with random selections, exclusions, row limits and names; the directory "
        "before and after, the predicted and the returned names, and the variables stated by all files (independent "
        "reader) are compared with the selection.")
REQUIRED = ["several files", "one file", "scalars", "bounds", "aux coordinates", "select", "select one", "exclude",
            "select and exclude", "scalar values compared", "split", "default name", "aux variables", "several times",
            "csv", "subset axis", "no extension", "class", "ten files or more", "default name in another folder",
            "text variables", "text variables excluded", "text variables looked for",
            "names alike"]
ASSUMPTIONS = ["every dimension of a selected variable has a coordinate variable",
               "at least one selected variable has dimensions"]
EOF_MONITOR = False


def scalar_values(lines, names):
    """The numbers stated for a variable without dimensions in comment lines, under its name or its full name."""
    for i, line in enumerate(lines):
        text = " ".join(line.split())
        if any(text.startswith("Variable %s:" % " ".join(name.split())) for name in names):
            for after in lines[i + 1:]:
                if re.match(r"^\s*Variable ", after):
                    break
                m = re.match(r"^\s*value = (\S+)\s*$", after)
                if m:
                    yield float(m.group(1))
                    break


def texts(rng, path, ds, g):
    """Text variables, put into the file: [(name, dimensions, text or None)]."""
    out = []
    with netCDF4.Dataset(path, "a") as f:
        for n in range(rng.randint(1, 2)):
            name = rng.choice(("station", "flight", "Site")) + "_text%d" % n
            text = g.line() or "x"
            dims = (rng.choice([d for d in ds["dims"] if not d.get("nocoord")])["name"],) if rng.random() < 0.4 else ()
            shape = tuple(len(f.dimensions[d]) for d in dims)
            # (strings of NetCDF-4 make the library itself crash now and then, so these are characters)
            raw = text.encode("utf-8")
            f.createDimension("strlen%d" % n, len(raw))
            v = f.createVariable(name, "S1", dims + ("strlen%d" % n,))
            v[...] = np.broadcast_to(np.frombuffer(raw, dtype="S1"), shape + (len(raw),))
            out.append((name, dims, None if dims else text))
    return out


def scalar_texts(lines, name):
    """What is stated in comment lines for a text variable without dimensions."""
    for i, line in enumerate(lines):
        if line.strip() == "Variable %s: %s" % (name, name):
            for after in lines[i + 1:]:
                if re.match(r"^\s*Variable ", after):
                    break
                if after.strip().startswith("value = "):
                    yield after.strip()[8:]
                    break


def listing(top):
    return sorted(os.path.relpath(os.path.join(d, f), top) for d, _, files in os.walk(top) for f in files)


def subset(rng, ds, g):
    """A variable on every n-th value of the first axis of a one-dimensional dataset."""
    d = ds["dims"][0]
    n = len(d["values"])
    steps = [k for k in range(2, n) if n % k == 0]
    if not steps:
        return False
    k = rng.choice(steps)
    new = dict(d, name=d["name"] + "_sub", values=d["values"][::k], unlimited=False)
    ds["dims"].append(new)
    ds["vars"].append(g.var([new["name"]], ds["dims"]))
    return True


def similar(rng, ds):
    """Renames a variable so that its name is much like another, or like that of something else: names that are alike."""
    plain = [v for v in ds["vars"] if not v.get("isbounds") and not v["aux"]]
    used = [x["name"] for x in ds["vars"] + ds["dims"]]
    a = rng.choice(plain)
    if rng.random() < 0.3 or len(plain) < 2:
        new, alike = a["name"] + rng.choice(("_bounds", "_bnds")), []
    else:
        b = rng.choice([v for v in plain if v is not a])
        new, alike = b["name"].swapcase(), [b["name"], b["name"].swapcase()]
    if new in used:
        return []
    a["name"] = new
    return alike


def with_class(path, out=None, only_return_file_names=False, size_limit=None, **kw):
    """The documented use of the class, also from another folder."""
    c = nc_to_na.NCToNA(path, **kw)
    if only_return_file_names:
        return c.constructNAFileNames(out, size_limit)
    c.convert()
    c.writeNAFiles(out, size_limit=size_limit)
    return c.output_files_written


def case(rng, i, ctx):
    g = nc.NcGen(rng)
    ds = g.dataset(onlyrank=rng.choice((None, None, 1)))
    if rng.random() < 0.15 and subset(rng, ds, g):
        ctx.feature("subset axis")
    if rng.random() < 0.2:
        g.bounds(ds)
        ctx.feature("bounds")
    alike = similar(rng, ds) if rng.random() < 0.25 else []
    if alike:
        ctx.feature("names alike")
    path = os.path.join(ctx.dir, rng.choice(("in.nc", "a.b.nc", "data", "d.nc.x/in.nc", "d.nc.x/in.nc", "x.nc.nc")))
    os.makedirs(os.path.join(ctx.dir, "d.nc.x"))
    nc.write(path, ds)

    ranked = [v for v in ds["vars"] if v["dims"] and not v.get("isbounds")]
    scalars = [v for v in ds["vars"] if not v["dims"]]
    names = [v["name"] for v in ranked + scalars]
    kw, chosen = {}, list(names)
    words = []
    if rng.random() < 0.25 and ds.get("format", "NETCDF4") != "NETCDF3":
        words = texts(rng, path, ds, g)
        ctx.feature("text variables")
    wanted = [n for n, dims, _ in words if not dims]
    k = rng.random()
    if k < 0.45:
        chosen = rng.sample(names, rng.randint(1, len(names)))
        if not set(chosen) & {v["name"] for v in ranked}:
            chosen.append(rng.choice(ranked)["name"])
        kw["var_ids"] = rng.choice((list, tuple))(chosen)
        ctx.feature("select")
        if len(chosen) == 1 and rng.random() < 0.6:
            kw["var_ids"] = chosen[0]
            ctx.feature("select one")
        if rng.random() < 0.2 and not isinstance(kw["var_ids"], str):
            kw["var_ids"] = list(kw["var_ids"]) + ["no_such_variable"]
        if isinstance(kw["var_ids"], str):
            wanted = []
        else:
            wanted = [n for n in wanted if rng.random() < 0.5]
            kw["var_ids"] = list(kw["var_ids"]) + wanted
    if rng.random() < 0.4:
        # (case is ignored in the names of those to leave out)
        out = [n for n in rng.sample(names, rng.randint(1, max(1, len(names) // 2))) if n not in alike]
        left = [n for n in chosen if n not in out]
        if out and set(left) & {v["name"] for v in ranked}:
            kw["exclude_vars"] = out + ["no_such_variable"] * (rng.random() < 0.2)
            ctx.feature("exclude" if len(chosen) == len(names) else "select and exclude")
            chosen = left
    # text that is not a single value cannot be written, so it is always left out
    arrays = [n for n, dims, _ in words if dims]
    if arrays and ("var_ids" not in kw or rng.random() < 0.3):
        kw["exclude_vars"] = list(kw.get("exclude_vars", [])) + arrays
        ctx.feature("text variables excluded")
    if rng.random() < 0.2:
        kw["size_limit"] = rng.randint(1, 20)
    csv = rng.random() < 0.12
    by_class = not csv and rng.random() < 0.15
    fn, ext = (nappy.convertNCToCSV, ".csv") if csv else (nappy.convertNCToNA, ".na")
    if by_class:
        fn = with_class
        ctx.feature("class")
    args = (path,)
    if rng.random() < 0.7:
        out = rng.choice(("out" + ext, "o.u.t" + ext, "out", "sub.dir/out" + ext, "sub.dir/out", "out.txt"))
        os.makedirs(os.path.join(ctx.dir, "sub.dir"), exist_ok=True)
        args += (os.path.join(ctx.dir, out),)
        if not out.endswith((ext, ".txt")):
            ctx.feature("no extension")
    else:
        ctx.feature("default name")
        if "d.nc.x" in path:
            ctx.feature("default name in another folder")
    ctx.seen(repr((ds, kw, args[1:])))
    ctx.sample = repr((ds, kw))
    if scalars:
        ctx.feature("scalars")
    if any(v["aux"] for v in ds["vars"]):
        ctx.feature("aux coordinates")
    if len([d for d in ds["dims"] if d["time"]]) > 1:
        ctx.feature("several times")

    before = {f: open(os.path.join(ctx.dir, f), "rb").read() for f in listing(ctx.dir)}
    predicted = must("convertNCToNA(only_return_file_names=True, %r)" % kw, fn, *args, only_return_file_names=True, **kw)
    if listing(ctx.dir) != sorted(before):
        raise Violation("predicting the file names wrote %r" % sorted(set(listing(ctx.dir)) - set(before)))
    files = must("convertNCToNA(%r)" % kw, fn, *args, **kw)
    if list(predicted) != list(files):
        raise Violation("predicted were %r, returned %r" % (predicted, files))
    if len(args) == 1:
        for f in files:
            if os.path.dirname(f) != os.path.dirname(path):
                raise Violation("without an output name, the output of %s is %s" % (path, f))
    if len(set(files)) != len(files):
        raise Violation("a file is returned twice: %r" % (files,))
    for f in files:
        if not os.path.isfile(f):
            raise Violation("the file %s does not exist" % f)
    written = sorted(set(listing(ctx.dir)) - set(before))
    if written != sorted(os.path.relpath(f, ctx.dir) for f in files):
        raise Violation("files written are %r, returned were %r" % (written, files))
    for f, data in before.items():
        if open(os.path.join(ctx.dir, f), "rb").read() != data:
            raise Violation("%s has changed" % f)
    ctx.feature("several files" if len(files) > 1 else "one file")
    ctx.count("files compared", len(files))
    if len(files) > 9:
        ctx.feature("ten files or more")
    if csv:
        ctx.feature("csv")
        return

    expected = {nc.var_na_name(v): v for v in ranked if v["name"] in chosen}
    found, scom, last = [], [], None
    for f in files:
        spec = nc2na.parse_file(f)
        w = os.path.basename(f) + ": "
        if spec["nvol"] > 1:
            ctx.feature("split")
            names = [n for n, _, _ in nc2na.variables_of(spec)]
            if spec["ivol"] == 1:
                found += names
                scom += spec["scom"]
            continue
        found += nc2na.judge_file(ds, spec, "%.10g", ctx, known=expected, where=w)
        scom += spec["scom"]
    for name in sorted(set(found) | set(expected)):
        if found.count(name) != 1 or name not in expected:
            raise Violation("variable %r is in %d of the files %r; selected were %r" %
                            (name, found.count(name), [os.path.basename(f) for f in files], sorted(expected)))
    ctx.count("variables found", len(found))
    for v in scalars:
        values = list(scalar_values(scom, (v["name"], nc.var_na_name(v))))
        if v["name"] not in chosen:
            if values:
                raise Violation("%s, which is not selected, is in the comments" % v["name"])
            continue
        a = nc.decoded(v)[0]
        tol = 1e-5 * max(abs(a), abs(v["pack"][1])) if v["pack"] else 1e-9 * abs(a)
        if len(values) != 1 or not abs(values[0] - a) <= tol:
            raise Violation("%s is %r, stated in the comments are %r" % (v["name"], a, values), scom=scom)
        ctx.count("scalar values compared")
    for name, dims, text in words:
        stated = list(scalar_texts(scom, name))
        if stated != ([" ".join(text.split())] if name in wanted else []):
            raise Violation("the text variable %s is %r (%s), stated in the comments are %r" %
                            (name, text, "selected" if name in wanted else "not selected", stated), scom=scom)
        ctx.count("text variables looked for")
