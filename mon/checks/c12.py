"""C12: NASA Ames to NetCDF keeps metadata and honours selections and renames."""

import os
import re

import numpy as np

import nappy

from mon import nc, render
from mon.checks import c11
from mon.core import Violation, must, must_fail

CASES = {"quick": 2000, "thorough": 30000}
RULE = ("Random fixed-axis contents with controlled names are converted with random selections (index, numeric text, "
        "name), renames, user attributes, time units and modes; every attribute, name, unit, position number and the "
        "set of variables in the NetCDF file (read with netCDF4) is compared with the request; append has to leave "
        "every variable already in the file as it was.")
REQUIRED = ["select int", "select text", "select name", "aux select int", "aux select name", "aux none", "rename",
            "rename clash", "unknown name", "unknown aux", "append", "append refused", "clashing names", "user atts",
            "time units given", "comments", "empty text"]
EOF_MONITOR = False

RESERVED = {"institution", "source", "title", "history", "comment", "file_format_index", "file_number_in_set",
            "total_files_in_set", "first_valid_date_of_data", "no_of_nasa_ames_header_lines"}
TIME = re.compile(r"(?:seconds|minutes|hours|days)\s+since\s+\d{1,4}-\d{1,2}-\d{1,2}(\s+\d+:\d+:\d+)?")
UNITS = ("m", "K", "ppmv", "hPa", "degrees_north", "m s-1", "%", "1e-9", "mol/mol", "hours", "part. cm**-3", "days")


def base_names(rng, n, ctx=None):
    out = []
    while len(out) < n:
        if out and rng.random() < 0.12:
            # another name for the same NetCDF name
            b = rng.choice(out)
            b = rng.choice((b.upper(), b.replace(" ", "-"), b.replace("-", " "), b + "", b.replace("_", "/")))
            if ctx:
                ctx.feature("clashing names")
        else:
            b = rng.choice(("ozone", "NO2", "Wind speed", "u-wind", "temp", "x_1", "RH at 2m", "2m temperature", "CO",
                            "a/b ratio", "H2O;", "100% cloud", "Total", "p", "1996", "mean [O3]", "T*", "long " * 14))
            b = b.strip() + rng.choice(("", "", " %d" % rng.randint(1, 99)))
        out.append(b)
    return out


def make(rng, ctx, quarters=False):
    s = c11.make(rng, ctx, quarters=quarters)
    units = {}

    def name(b):
        u = rng.choice(UNITS) if rng.random() < 0.7 else ""
        full = "%s (%s)" % (b, u) if u else b
        units[full] = u
        return full
    n = len(s["vname"]) + len(s.get("aname", ()))
    bases = base_names(rng, n, ctx)
    full = [name(b) for b in bases]
    s["vname"] = full[:len(s["vname"])]
    if "aname" in s:
        s["aname"] = full[len(s["vname"]):]
    s["base"] = bases
    return s


def split(full):
    m = re.match(r"^(.*?)\s*\(([^()]*)\)$", full)
    return (m.group(1), m.group(2)) if m else (full, "")


def atts(rng):
    out = []
    for _ in range(rng.randint(1, 3)):
        k = "user_%d" % rng.randint(0, 99)
        if k in dict(out):
            continue
        out.append((k, rng.choice(("some text", "a, b; c", "x" * 300, 5, 0, -7, 2.5, 10 ** 10, "", "two\nlines",
                                   "4", "µ°", [1, 2, 3], [0.5, 1.5]))))
    return out


def same_att(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    a, b = np.atleast_1d(a), np.atleast_1d(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def judge_globals(s, data, user, ctx):
    g = data.globals

    def want(key, ok, value):
        if key not in g:
            raise Violation("no global attribute %s" % key, globals=g)
        if not ok(g[key]):
            raise Violation("global attribute %s is %r; the file states %r" % (key, g[key], value))
        ctx.count("attributes compared")
    want("institution", lambda v: v.startswith(s["oname"] + " ") and (" " + s["org"] + " ") in v[len(s["oname"]):],
         (s["oname"], s["org"]))
    want("source", lambda v: v == s["sname"], s["sname"])
    want("title", lambda v: v == s["mname"], s["mname"])
    if "" in (s["sname"], s["mname"], s["oname"], s["org"]):
        ctx.feature("empty text")
    want("file_number_in_set", lambda v: int(v) == s["ivol"], s["ivol"])
    want("total_files_in_set", lambda v: int(v) == s["nvol"], s["nvol"])
    want("file_format_index", lambda v: int(v) == s["ffi"], s["ffi"])
    want("first_valid_date_of_data", lambda v: list(np.atleast_1d(v)) == s["date"], s["date"])
    want("history", lambda v: "%04d-%02d-%02d - NASA Ames File created/revised" % tuple(s["rdate"]) in v, s["rdate"])
    lines = [c for c in s["scom"] + s["ncom"] if c]
    got = [c for c in g.get("comment", "").split("\n")
           if c and not re.match(r"^==== (Special|Normal) Comments (follow|end) ====$", c)]
    if got != lines:
        raise Violation("the comment lines are %r, the file states %r" % (got, lines))
    if lines:
        ctx.feature("comments")
    for k, v in user:
        if k not in g or not same_att(g[k], v):
            raise Violation("the user's global attribute %s is %r, given as %r" % (k, g.get(k), v))


def judge_units(s, data, number, aux, ctx, renamed=None):
    attr = "nasa_ames_aux_var_number" if aux else "nasa_ames_var_number"
    full = (s["aname"] if aux else s["vname"])[number]
    base, units = split(full)
    found = c11.find(data, attr, number)
    name = found[0]
    got = data.vars[name]["attrs"].get("units", "")
    if got != units:
        raise Violation("the units of %r are %r" % (full, got))
    if renamed is None:
        plain = re.sub(r"[^a-z0-9]", "", base.lower())
        if len(base) < 60 and re.sub(r"[^a-z0-9]", "", re.sub(r"_\d+$", "", name.lower())) != plain and \
                re.sub(r"[^a-z0-9]", "", name.lower()) != plain:
            raise Violation("%r is called %r" % (full, name))
    elif name.lower() != renamed.lower() and not re.match("^%s_[0-9]+$" % re.escape(renamed.lower()), name.lower()):
        raise Violation("%r was to be called %r, it is called %r" % (full, renamed, name))
    ctx.count("names and units compared")
    return name


def judge_axes(s, data, found, given, ctx):
    v = data.vars[found]
    for dim, full in zip(v["dims"], s["xname"][::-1]):
        a = data.vars[dim]["attrs"]
        m = re.match(r"^(.*?)\s*\(([^()]*)\)$", full)
        units = m.group(2) if m else ""
        base = m.group(1) if m else full
        if "time" in base.lower() and not re.match(r"\w+\s+since\s+\d", units) and given:
            units = given
            ctx.feature("time units given")
        if units and a.get("units") != units:
            raise Violation("the units of axis %r are %r" % (full, a.get("units")))
        ctx.count("axis units compared")
        plain = re.sub(r"[^a-z0-9]", "", base.lower())
        kinds = [k for k in ("longitude", "latitude", "level", "time") if k in base.lower()]
        got = re.sub(r"_\d+$", "", dim.lower())
        if not 0 < len(base) < 60 or got in kinds:
            continue
        if kinds or plain not in (re.sub(r"[^a-z0-9]", "", dim.lower()), re.sub(r"[^a-z0-9]", "", got)):
            raise Violation("the axis %r is called %r" % (full, dim))
        ctx.count("axis names compared")


def case(rng, i, ctx):
    s = make(rng, ctx)
    for k in range(len(s["xname"])):
        m = re.match(r"^[^()]*(\([^()]*\))?$", s["xname"][k])
        if not m:
            s["xname"][k] = rng.choice(c11.AXES)
    text = render.render(s, render.Layout())
    path = render.write(ctx.path("in.na"), text)
    out = ctx.path("out.nc")
    kw = {"time_warning": False}
    ctx.sample = text[:1200]
    nv, naux = len(s["vname"]), len(s.get("aname", ()))
    variables, aux_variables, user, renames = list(range(nv)), list(range(naux)), [], {}

    if rng.random() < 0.45:
        variables = rng.sample(range(nv), rng.randint(1, nv))
        k = rng.choice(("int", "text", "name"))
        if k == "name":
            kw["variables"] = [s["vname"][n] for n in variables]
            variables = [s["vname"].index(s["vname"][n]) for n in variables]
        else:
            kw["variables"] = [n if k == "int" else str(n) for n in variables]
        ctx.feature("select " + k)
    if naux and rng.random() < 0.45:
        k = rng.choice(("int", "name", "name", "none"))
        aux_variables = rng.sample(range(naux), rng.randint(1, naux))
        if k == "none":
            kw["aux_variables"], aux_variables = [], []
        elif k == "int":
            kw["aux_variables"] = list(aux_variables)
        else:
            kw["aux_variables"] = [s["aname"][n] for n in aux_variables]
            aux_variables = [s["aname"].index(s["aname"][n]) for n in aux_variables]
        ctx.feature("aux none" if k == "none" else "aux select " + k)
    if len(set(variables)) < len(variables) or len(set(aux_variables)) < len(aux_variables):
        return
    if rng.random() < 0.5:
        user = atts(rng)
        kw["global_attributes"] = list(user)
        ctx.feature("user atts")
    if rng.random() < 0.3:
        kw["time_units"] = "hours since 1999-01-01 00:00:00"
    if rng.random() < 0.15:
        # an unknown name
        if naux and rng.random() < 0.5:
            kw["aux_variables"] = [s["aname"][n] for n in aux_variables[:1]] + ["no such variable"]
            ctx.feature("unknown aux")
        else:
            kw["variables"] = [s["vname"][n] for n in variables[:1]] + ["no such variable"]
            ctx.feature("unknown name")
        ctx.seen(repr((text, kw)))
        must_fail("selecting an unknown variable", nappy.convertNAToNC, path, out, **kw)
        if os.path.exists(out):
            raise Violation("a failed conversion left an output file")
        return
    if rng.random() < 0.4:
        allbases = [split(n)[0] for n in s["vname"] + s.get("aname", [])]
        plain = [re.sub(r"[^a-z0-9]", "", b.lower()) for b in allbases]
        for b, p in zip(allbases, plain):
            if plain.count(p) == 1 and len(b) < 60 and rng.random() < 0.6:
                new = rng.choice(("new_%d" % rng.randint(0, 99), "zz", "renamed.%d" % rng.randint(0, 9)))
                if new in [r.lower() for r in renames.values()] or rng.random() < 0.1:
                    ctx.feature("rename clash")
                renames[b] = new
        kw["rename_variables"] = {rng.choice((b, b.lower(), b.upper())): v for b, v in renames.items()}
        if renames:
            ctx.feature("rename")
    ctx.seen(repr((text, kw)))
    must("convertNAToNC(%r)" % kw, nappy.convertNAToNC, path, out, **kw)
    data = nc.Nc(out)
    c11.judge(s, data, ctx, variables, aux_variables)
    judge_globals(s, data, user, ctx)
    names = []
    for aux, chosen in ((False, variables), (True, aux_variables)):
        full = s.get("aname") if aux else s["vname"]
        for n in chosen:
            names.append(judge_units(s, data, n, aux, ctx, renames.get(split(full[n])[0])))
    if sorted(names) != sorted(data.data_vars()):
        raise Violation("the NetCDF file holds %r, requested were %r" % (sorted(data.data_vars()), sorted(names)))
    for n in variables[:1]:
        judge_axes(s, data, c11.find(data, "nasa_ames_var_number", n)[0], kw.get("time_units"), ctx)

    if rng.random() < 0.35:
        append(rng, ctx, s, path, out, data, kw)


def append(rng, ctx, s, path, out, before, kw):
    """More variables on the same axes, the same variables again, or other axes."""
    t = dict(s)
    k = rng.choice(("more", "more", "again", "axes"))
    if k == "more":
        t["vname"] = ["added %d (K)" % n for n in range(len(s["vname"]))]
        if "aname" in s:
            t["aname"] = ["aux added %d (K)" % n for n in range(len(s["aname"]))]
    elif k == "axes":
        t["vname"] = ["added %d (K)" % n for n in range(len(s["vname"]))]
        if "aname" in s:
            t["aname"] = ["aux added %d (K)" % n for n in range(len(s["aname"]))]
        t["marks"] = [dict(m) for m in s["marks"]]
        t["marks"][-1]["x"] += 1000 * (1 if s["marks"][0]["x"] <= s["marks"][-1]["x"] else -1)
        t["dx"] = s["dx"][:-1] + [0.0]
        if s["ffi"] == 1020:
            return
    p2 = render.write(ctx.path("in2.na"), render.render(t, render.Layout()))
    args = kw if k == "again" else {k: v for k, v in kw.items() if k in ("time_warning", "time_units")}
    if k == "more":
        must("appending", nappy.convertNAToNC, p2, out, mode="a", **args)
        ctx.feature("append")
    else:
        must_fail("appending a variable the file already holds (%s)" % k, nappy.convertNAToNC, p2, out, mode="a", **args)
        ctx.feature("append refused")
    after = nc.Nc(out)
    for name, v in before.vars.items():
        if name not in after.vars:
            raise Violation("append mode lost the variable %s" % name)
        w = after.vars[name]
        if v["dims"] != w["dims"] or before.flat(name) != after.flat(name):
            raise Violation("append mode changed the variable %s" % name)
        for a in v["attrs"]:
            if a not in w["attrs"] or not same_att(v["attrs"][a], w["attrs"][a]):
                raise Violation("append mode changed attribute %s of %s" % (a, name))
    new = [n for n in after.data_vars() if n not in before.vars]
    if k == "more" and len(new) != len(t["vname"]) + len(t.get("aname", ())):
        raise Violation("append mode added %r" % new)
    if k != "more" and new:
        raise Violation("a refused append added %r" % new)
