"""C20: The command-line tools do what the library calls do."""

import builtins
import contextlib
import io
import os
import re
import shutil
import subprocess
import sys

import nappy
import nappy.script.na2nc
import nappy.script.nc2csv
import nappy.script.nc2na

from mon import nc, render
from mon.checks import c12, c14
from mon.core import REPO, Violation, attempt

CASES = {"quick": 1200, "thorough": 18000}
RULE = ("nc2na, nc2csv and na2nc are run with random combinations of their documented options on random inputs, as the "
        "functions with a list, as the functions with sys.argv, and as processes of their own (module, file and installed "
        "entry point); files, their content, the names printed, what is returned and the exit status are compared with the "
        "library call with the same arguments in a directory of its own. Usage errors must print the usage and leave the "
        "directory as it was; what the library refuses must fail in the command too.")
TOOLS = ("nc2na", "nc2csv", "na2nc")
REQUIRED = list(TOOLS) + ["usage " + t for t in TOOLS] + \
    ["%s %s" % (t, o) for t in TOOLS[:2] for o in ("-v", "--ffi", "-f", "-l", "-e", "--overwrite-metadata", "--names-only",
                                                   "--no-header", "--annotated", "-o", "default output")] + \
    ["nc2na -d"] + ["na2nc " + o for o in ("-m", "-g", "-r", "-t", "-n", "-o", "default output", "append")] + \
    ["list", "argv", "module", "entry point", "script file", "refused", "several files", "not implemented", "unknown option",
     "no input", "no value", "relative path", "several options", "no extension"]
EOF_MONITOR = False


def init_worker():
    builtins.input = lambda *args: ""


FUNCTIONS = {"nc2na": nappy.script.nc2na.nc2na, "nc2csv": nappy.script.nc2csv.nc2csv, "na2nc": nappy.script.na2nc.na2nc}
CALLS = {"nc2na": nappy.convertNCToNA, "nc2csv": nappy.convertNCToCSV, "na2nc": nappy.convertNAToNC}


class Outcome:
    """What a run of a command did."""

    def __init__(self, out, result=None, exc=None, status=None):
        self.out, self.result, self.exc, self.status = out, result, exc, status


def in_process(tool, args, way, cwd):
    buf = io.StringIO()
    old = sys.argv
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(buf):
            if way == "list":
                given = list(args)
                res, exc = attempt(FUNCTIONS[tool], given)
            else:
                sys.argv = [tool + ".py"] + list(args)
                res, exc = attempt(FUNCTIONS[tool])
    finally:
        sys.argv = old
    return Outcome(buf.getvalue(), res, exc)


def process(tool, args, way, cwd):
    start = {"module": ["-m", "nappy.script." + tool], "script file": [os.path.join(REPO, "nappy", "script", tool + ".py")],
             "entry point": ["-c", "import sys; from nappy.script.%s import %s; sys.argv[0] = %r; sys.exit(%s())"
                             % (tool, tool, tool, tool)]}[way]
    p = subprocess.run([sys.executable] + start + list(args), cwd=cwd, capture_output=True, text=True, timeout=200,
                       input="\n" * 50)            # (the user leaves the time units blank)
    return Outcome(p.stdout, status=p.returncode, exc=RuntimeError(p.stderr[-500:]) if p.returncode else None)


def run(rng, ctx, tool, args, cwd):
    way = rng.choice(("module", "script file", "entry point")) if rng.random() < 0.06 else rng.choice(("list", "list", "argv"))
    ctx.feature(way)
    if way in ("list", "argv"):
        return way, in_process(tool, args, way, cwd)
    return way, process(tool, args, way, cwd)


def undated(data):
    return re.sub(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d( - Converted)", rb"TIME\1", data)


def directory(top):
    out = {}
    for f in c14.listing(top):
        p = os.path.join(top, f)
        if f.endswith(".nc") or open(p, "rb").read(4) in (b"\x89HDF", b"CDF\x01", b"CDF\x02"):
            out[f] = nc.everything(p)
        else:
            out[f] = undated(open(p, "rb").read())
    return out


def text(rng):
    return rng.choice(("A mission", "x", "See line 2 - my favourite org.", "1", "a=b", "-dash", "(b)", "What? 100%", "--ffi", ""))


# ---------------------------------------------------------------- NetCDF to NASA Ames and CSV

def to_na(rng, ctx, tool):
    """(input maker, options as arguments, library arguments, file name of the output or None)"""
    g = nc.NcGen(rng)
    ds = g.dataset(onlyrank=rng.choice((None, None, 1)))
    names = [v["name"] for v in ds["vars"] if v["dims"] and not v.get("isbounds")]
    rank = max(len(v["dims"]) for v in ds["vars"])
    kw, args = {}, []

    def option(o, p):
        if rng.random() < p:
            ctx.feature("%s %s" % (tool, o))
            return True
    if option("-v", 0.25):
        kw["var_ids"] = rng.sample(names, rng.randint(1, len(names)))
        args.append(["-v", ",".join(kw["var_ids"])])
    if option("-e", 0.2):
        kw["exclude_vars"] = rng.sample(names, rng.randint(1, max(1, len(names) - 1)))
        args.append(["-e", ",".join(kw["exclude_vars"])])
    if option("--ffi", 0.2):
        kw["requested_ffi"] = rng.choice({1: (1001, 1001, 1020), 2: (2010, 2110, 2310), 3: (3010,), 4: (4010,)}.get(rank, (1001,))
                                         + (rng.choice((1001, 1010, 2010, 3010)),))
        args.append(rng.choice((["--ffi=%d" % kw["requested_ffi"]], ["--ffi", str(kw["requested_ffi"])])))
    if option("-f", 0.3):
        kw["float_format"] = rng.choice(("%s", "%g", "%5.2f", "%.12e", "%03d"))
        args.append(["-f", kw["float_format"]])
    if tool == "nc2na" and option("-d", 0.3):
        kw["delimiter"] = rng.choice((",", " ", "\t", ";", "   ", ", ", " ;"))
        args.append(rng.choice((["-d", kw["delimiter"]], ["-d" + kw["delimiter"]])))
    if option("-l", 0.25):
        kw["size_limit"] = rng.randint(1, 9)
        args.append(["-l", str(kw["size_limit"])])
    if option("--overwrite-metadata", 0.25):
        items = {}
        for k in rng.sample(("ONAME", "ORG", "MNAME", "SNAME", "DATE", "RDATE", "NCOM", "SCOM"), rng.randint(1, 3)):
            items[k] = "%d %d %d" % (rng.randint(1900, 2040), rng.randint(1, 12), rng.randint(1, 28)) if "DATE" in k else text(rng)
        kw["na_items_to_override"] = items
        t = ",".join("%s,%s" % i for i in items.items())
        args.append(rng.choice((["--overwrite-metadata=" + t], ["--overwrite-metadata", t])))
    if option("--names-only", 0.15):
        kw["only_return_file_names"] = True
        args.append(["--names-only"])
    if option("--no-header", 0.2):
        kw["no_header"] = True
        args.append(["--no-header"])
    if option("--annotated", 0.2):
        kw["annotation"] = True
        args.append(["--annotated"])
    ext = ".na" if tool == "nc2na" else ".csv"
    inputs = rng.choice(("in.nc", "in.nc", "a.b.nc", "noext", "in.cdf", "x.nc.nc"))

    def make(path):
        nc.write(path, ds)
    ctx.sample = repr((tool, args, ds))
    ctx.seen(repr((tool, args, ds)))
    out = rng.choice(("out" + ext, "out", "o.u.t" + ext, "out.txt"))
    return make, inputs, args, kw, out


def to_nc(rng, ctx, tool):
    s = c12.make(rng, ctx)
    ctx.features -= {f for f in ctx.features if f not in REQUIRED}
    names = s["vname"] + s.get("aname", [])
    kw, args = {}, []

    def option(o, p):
        if rng.random() < p:
            ctx.feature("%s %s" % (tool, o))
            return True
    mode = None
    if option("-m", 0.4):
        mode = kw["mode"] = rng.choice(("w", "a"))
        args.append(["-m", mode])
    if option("-g", 0.3):
        kw["global_attributes"] = [("user_%d" % n, rng.choice(("happy days", "4", "a b", "x=y", "-n"))) for n in
                                   range(rng.randint(1, 3))]
        args.append(["-g", ",".join("%s,%s" % a for a in kw["global_attributes"])])
    if option("-r", 0.3):
        kw["rename_variables"] = {}
        for n in rng.sample(names, min(len(names), rng.randint(1, 2))):
            b = c12.split(n)[0]
            if "," not in b:
                kw["rename_variables"][b] = "renamed_%d" % len(kw["rename_variables"])
        if kw["rename_variables"]:
            args.append(["-r", ",".join("%s,%s" % a for a in kw["rename_variables"].items())])
    if option("-t", 0.3):
        kw["time_units"] = rng.choice(("hours since 2003-04-30 10:00:00", "days since 1999-01-01"))
        args.append(["-t", kw["time_units"]])
    if option("-n", 0.5):
        kw["time_warning"] = False
        args.append(["-n"])
    source = render.render(s)
    inputs = rng.choice(("in.na", "in.na", "a.b.na", "noext", "in.nas", "in.txt", "x.na.na"))

    def make(path):
        render.write(path, source)
    ctx.sample = repr((tool, args)) + source
    ctx.seen(repr((tool, args, source)))
    return make, inputs, args, kw, rng.choice(("out.nc", "out", "o.u.t.cdf")), mode, s


def works(rng, ctx, tool):
    mode = None
    if tool == "na2nc":
        make, inputs, args, kw, name, mode, s = to_nc(rng, ctx, tool)
    else:
        make, inputs, args, kw, name = to_na(rng, ctx, tool)
    ctx.feature(tool)
    a, b = os.path.join(ctx.dir, "a.dir"), os.path.join(ctx.dir, "b.dir")
    os.mkdir(a)
    os.mkdir(b)
    make(os.path.join(a, inputs))
    shutil.copyfile(os.path.join(a, inputs), os.path.join(b, inputs))
    if rng.random() < 0.3:
        # the command does not know where it is
        ctx.feature("relative path")
        src, prefix, cwd = inputs, "", a
    else:
        src, prefix, cwd = os.path.join(a, inputs), a + os.sep, ctx.dir
    out = None
    if rng.random() < 0.6:
        out = prefix + name
        ctx.feature("%s -o" % tool)
        if "." not in name:
            ctx.feature("no extension")
    else:
        ctx.feature("%s default output" % tool)
    if mode == "a":
        target = name if out else os.path.splitext(inputs)[0] + ".nc"
        if rng.random() < 0.7:
            t = dict(s, vname=["other %d" % n for n in range(len(s["vname"]))])
            if "aname" in s:
                t["aname"] = ["other aux %d" % n for n in range(len(s["aname"]))]
            render.write(os.path.join(ctx.dir, "first.na"), render.render(t))
            for d in (a, b):
                attempt(nappy.convertNAToNC, os.path.join(ctx.dir, "first.na"), os.path.join(d, target), time_warning=False)
            ctx.feature("na2nc append")
    args = args + [["-i", src]] + ([["-o", out]] if out else [])
    rng.shuffle(args)
    if len(args) > 4:
        ctx.feature("several options")
    args = [x for o in args for x in o]

    way, got = run(rng, ctx, tool, args, cwd)
    os.chdir(b)
    positional = [inputs] + ([name] if out else [])
    want, exc = attempt(CALLS[tool], *positional, **kw)
    os.chdir(ctx.dir)
    what = "%s %s (%s)" % (tool, " ".join(map(repr, args)), way)
    if exc is not None:
        if got.exc is None:
            raise Violation("%s succeeds, the library call raises %r" % (what, exc))
        if isinstance(got.exc, SystemExit):
            raise Violation("%s is refused as a usage error; the library call raises %r" % (what, exc))
        ctx.feature("refused")
        da, db = directory(a), directory(b)
        if sorted(da) != sorted(db):
            raise Violation("%s fails and leaves %r, the library call leaves %r" % (what, sorted(da), sorted(db)))
        return
    if got.exc is not None:
        raise Violation("%s fails with %r, status %r; the library call succeeds" % (what, got.exc, got.status))
    da, db = directory(a), directory(b)
    if sorted(da) != sorted(db):
        raise Violation("%s: the files are %r, after the library call %r" % (what, sorted(da), sorted(db)))
    for f in db:
        if da[f] != db[f]:
            raise Violation("%s: %s is not what the library call writes" % (what, f), command=da[f], call=db[f])
    ctx.count("files compared", len(db))
    judge_report(tool, got, want, prefix, kw, what, way, out, ctx)


def judge_report(tool, got, want, prefix, kw, what, way, out, ctx):
    if way == "argv" and got.result is not None:
        raise Violation("%s: as an installed command it ends with the status %r" % (what, got.result))
    if tool == "na2nc":
        expected = prefix + want
        if way == "list" and got.result != expected:
            raise Violation("%s: %r is returned, expected %r" % (what, got.result, expected))
        if out is None and expected not in got.out:
            raise Violation("%s: the output says %r, not the file %r" % (what, got.out, expected))
        return
    expected = [prefix + f for f in want]
    if len(expected) > 1:
        ctx.feature("several files")
    if way == "list" and list(got.result) != expected:
        raise Violation("%s: %r is returned, expected %r" % (what, got.result, expected))
    lines = [x.strip() for x in got.out.split("\n") if x.strip()]
    said = [x for x in lines if x in expected]
    if said != expected or len(lines) != len(expected) + 1:
        raise Violation("%s: the output is %r, expected the files %r" % (what, got.out, expected))
    title = "names would be" if kw.get("only_return_file_names") else "wrote"
    if title not in lines[0]:
        raise Violation("%s: the output starts with %r" % (what, lines[0]))


# ---------------------------------------------------------------- usage errors

def usage(rng, ctx, tool):
    d = os.path.join(ctx.dir, "a.dir")
    os.mkdir(d)
    k = rng.choice(("unknown option", "unknown option", "no input", "no input", "no value", "not implemented", "empty input"))
    if k == "not implemented" and tool == "nc2na":
        k = "unknown option"
    g = nc.NcGen(rng)
    if tool == "na2nc":
        src = render.write(os.path.join(d, "in.na"), render.render(c12.make(rng, ctx)))
        ctx.features -= {f for f in ctx.features if f not in REQUIRED}
        good = [["-n"], ["-t", "hours since 2003-04-30 10:00:00"], ["-m", "w"], ["-o", os.path.join(d, "out.nc")]]
        bad = ["-x", "-q", "--ffi=1001", "--names-only", "--nothing", "-l", "-f", "-d", "-e", "--no-header"]
        values = ["-m", "-g", "-r", "-t", "-o", "-i"]
        ctx.seen(src + str(rng.random()))
    else:
        src = os.path.join(d, "in.nc")
        ds = g.dataset()
        nc.write(src, ds)
        ctx.seen(repr(ds))
        good = [["-f", "%g"], ["-l", "3"], ["--no-header"], ["--annotated"], ["-o", os.path.join(d, "out.na")], ["--names-only"]]
        bad = ["-x", "-q", "-n", "-m", "--nothing", "--ff", "-t", "--size-limit=3", "--overwrite", "-g", "-r", "--delimiter=,",
               "--names-only=3", "--variables=a"]
        bad.remove("--ff")
        bad.remove("--overwrite")               # (abbreviations of long options are options)
        values = ["-v", "-f", "-l", "-e", "-o", "-i", "--ffi", "--overwrite-metadata"] + (["-d"] if tool == "nc2na" else [])
    args = rng.sample(good, rng.randint(0, len(good)))
    if k == "unknown option":
        args.insert(rng.randint(0, len(args)), [rng.choice(bad)])
        args.insert(rng.randint(0, len(args)), ["-i", src])
    elif k == "no value":
        args += [["-i", src], [rng.choice(values)]]
    elif k == "not implemented":
        args.insert(rng.randint(0, len(args)), ["-i", src])
        args.insert(rng.randint(0, len(args)), [rng.choice(("-v", "-a")), "0"] if tool == "na2nc" else
                    rng.choice((["-d", ";"], ["-d;"], ["-d", ","])))
    elif k == "empty input":
        args.insert(rng.randint(0, len(args)), ["-i", ""])
    ctx.feature("no input" if k == "empty input" else k, "usage " + tool)
    args = [x for o in args for x in o]
    ctx.sample = repr((tool, args))
    before = directory(d)
    cwd = d
    way, got = run(rng, ctx, tool, args, cwd)
    what = "%s %s (%s)" % (tool, " ".join(map(repr, args)), way)
    if way in ("list", "argv") and not isinstance(got.exc, SystemExit):
        raise Violation("%s: this is a usage error (%s), but it gives %r" % (what, k, got.exc or got.result))
    if way not in ("list", "argv") and "Traceback" in str(got.exc):
        raise Violation("%s: this is a usage error (%s), but it gives %s" % (what, k, got.exc))
    if "Usage" not in got.out or tool + ".py" not in got.out or "-i <" not in got.out:
        raise Violation("%s: no usage is printed but %r" % (what, got.out[:500]))
    after = directory(d)
    if before != after:
        raise Violation("%s: a usage error, but the directory holds %r" % (what, sorted(after)))
    ctx.count("usage errors")


def case(rng, i, ctx):
    tool = rng.choice(TOOLS)
    if rng.random() < 0.25:
        usage(rng, ctx, tool)
    else:
        works(rng, ctx, tool)
