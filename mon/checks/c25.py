"""C25: Site configuration files are honoured and only there."""

import configparser
import os
import re
import subprocess
import sys

from mon import fresh, model, nc, present, refparse, render
from mon.core import REPO, Violation

CASES = {"quick": 1100, "thorough": 16000}
RULE = ("Random site annotation files and site attribute files are named in the environment of new processes that write, "
        "convert to CSV and convert from and to NetCDF. Annotated files are judged line by line against the site's (or the "
        "shipped) descriptions. Conversions are compared, byte by byte but for the time of conversion, with what a process "
        "without any site defaults writes when the same items are given as explicit overrides; with and without explicit "
        "overrides, mappings of attributes, earlier uses in the same process, relative paths and empty variables.")
REQUIRED = ["site annotations", "shipped annotations", "site attributes", "shipped attributes", "mapping", "mapping used",
            "explicit override wins", "both", "empty variable", "relative path", "earlier use", "no effect on NetCDF",
            "no effect without annotation", "percent sign", "command", "site comments", "site dates", "several files", "stray files"] + \
           ["ffi-%d" % f for f in model.FFIS]
ASSUMPTIONS = ["site files are complete: every key of the shipped annotations, both sections of the attributes",
               "descriptions have no blanks at their ends (the file format drops them)"]
EOF_MONITOR = False
SHIPPED = os.path.join(REPO, "nappy", "config", "local_attributes.ini")
KEYS = ("ORG", "ONAME", "SNAME", "MNAME")
ATTS = ("instrument", "project", "creator", "contact_person", "Platform")


def setup(base, tier):
    fresh.setup(base)


def ini(path, sections):
    with open(path, "w") as fh:
        for name, items in sections.items():
            fh.write("[%s]\n" % name)
            for k, v in items.items():
                fh.write("%s%s%s\n" % (k, " = ", v))
            fh.write("\n")
    return path


def shipped_attributes():
    conf = configparser.RawConfigParser()
    conf.optionxform = str
    conf.read(SHIPPED)
    return dict(conf.items("na_attributes"))


def phrase(rng, ctx):
    words = ("Data", "of", "the", "site", "(YYYY MM DD)", "100%", "%s", "%", "a=b", "key: value", "no. 1", "x;y", "#1", "O'Neil",
             '"quoted"', "first, second", "[m]", "N/A", "-", "50 % of", "%(x)s", "$HOME", "~", "a\\b")
    while True:
        t = " ".join(rng.choice(words) for _ in range(rng.randint(1, 4)))
        if t[0] not in ";#\"'[" and t[-1] not in "\"'" and "  " not in t:
            if "%" in t:
                ctx.feature("percent sign")
            return t


# ---------------------------------------------------------------- in the new processes

def earlier_use(kind, path, out):
    """Something else done before."""
    import nappy
    if kind == "nc":
        nappy.convertNCToNA(path, out, na_items_to_override={"MNAME": "earlier", "ORG": "earlier", "SNAME": "earlier",
                                                             "NCOM": ["earlier"]}, annotation=True)
    else:
        nappy.convertNAToCSV(path, out, annotation=True)


def do_write(na_dict, path, options, before):
    import nappy
    if before:
        earlier_use(*before)
    f = nappy.openNAFile(path, "w", na_dict=na_dict)
    f.write(**options)
    f.close()


def do_csv(path, out, options, before):
    import nappy
    if before:
        earlier_use(*before)
    nappy.convertNAToCSV(path, out, **options)


def do_nc2na(path, out, options, before):
    import nappy
    if before:
        earlier_use(*before)
    return nappy.convertNCToNA(path, out, **options)


def do_na2nc(path, out):
    import nappy
    nappy.convertNAToNC(path, out, time_warning=False)


# ---------------------------------------------------------------- configurations

def make_config(rng, ctx):
    """(environment, descriptions or None, na_attributes, nc_attributes)"""
    env = {"NAPPY_ANNOTATIONS": None, "NAPPY_LOCAL_ATTRIBUTES": None}
    d = os.path.join(ctx.dir, "site.d")
    os.mkdir(d)
    label, na, mapping = None, shipped_attributes(), {}
    if rng.random() < 0.6:
        label = {k: phrase(rng, ctx) if rng.random() < 0.8 else v.strip() for k, v in present.labels().items()}
        env["NAPPY_ANNOTATIONS"] = ini(os.path.join(d, "notes.ini"), {"annotations": label})
        ctx.feature("site annotations")
    else:
        ctx.feature("shipped annotations")
        if rng.random() < 0.3:
            env["NAPPY_ANNOTATIONS"] = ""
            ctx.feature("empty variable")
    if rng.random() < 0.6:
        g = nc.NcGen(rng)
        na = {k: g.line().strip() for k in KEYS if rng.random() < 0.4}
        na = {k: v for k, v in na.items() if v and v[0] not in "\"';#[" and v[-1] not in "\"'" and "&" not in v}
        if rng.random() < 0.2:
            na["NCOM"] = "A comment of the site"
            ctx.feature("site comments")
        if rng.random() < 0.2:
            na["SCOM"] = "A special comment of the site"
        if rng.random() < 0.2:
            na["DATE"] = "%d %d %d" % (rng.randint(1950, 2030), rng.randint(1, 12), rng.randint(1, 28))
            ctx.feature("site dates")
        if rng.random() < 0.2:
            na["RDATE"] = "%d %d %d" % (rng.randint(1950, 2030), rng.randint(1, 12), rng.randint(1, 28))
        if rng.random() < 0.4:
            mapping = {rng.choice(ATTS): rng.choice(("SNAME", "MNAME"))}
            ctx.feature("mapping")
        env["NAPPY_LOCAL_ATTRIBUTES"] = ini(os.path.join(d, "atts.ini"), {"nc_attributes": mapping, "na_attributes": na})
        ctx.feature("site attributes")
        if label:
            ctx.feature("both")
    else:
        ctx.feature("shipped attributes")
        if rng.random() < 0.3:
            env["NAPPY_LOCAL_ATTRIBUTES"] = ""
            ctx.feature("empty variable")
    if rng.random() < 0.3:
        # files that nothing points to
        for where in rng.choice(((ctx.dir,), (ctx.dir, d), (d,))):
            ini(os.path.join(where, "annotations.ini"), {"annotations": {k: "Astray" for k in present.labels()}})
            for name in ("local_attributes.ini", "nappy.ini", "atts.ini.bak", ".local_attributes.ini"):
                ini(os.path.join(where, name), {"nc_attributes": {"title": "SNAME"}, "na_attributes": {k: "Astray" for k in KEYS}})
        ctx.feature("stray files")
    if rng.random() < 0.2:
        env = {k: os.path.relpath(v, ctx.dir) if v else v for k, v in env.items()}
        ctx.feature("relative path")
    return env, label, na, mapping


def lines_of(path):
    try:
        with open(path, newline="") as fh:
            text = fh.read()
    except FileNotFoundError:
        raise Violation("%s was not written" % os.path.basename(path))
    return re.sub(r"(History:  )\d{4}-\d\d-\d\d \d\d:\d\d:\d\d( - Converted)", r"\1TIME\2", text)


def written(rng, ctx, env, label):
    """Annotated and plain files from a dictionary, and CSV files."""
    s = model.Gen(rng).content(rng.choice(model.FFIS))
    ctx.feature("ffi-%d" % s["ffi"])
    text = render.render(s)
    src = render.write(os.path.join(ctx.dir, "in.na"), text)
    ctx.seen(text)
    delimiter = ","
    before = None
    if rng.random() < 0.3:
        before = ("na", src, os.path.join(ctx.dir, "earlier.csv"))
        ctx.feature("earlier use")
    out = os.path.join(ctx.dir, "out.na")
    options = {"annotation": True}
    csv = rng.random() < 0.4
    if csv:
        fresh.must("convertNAToCSV", do_csv, src, out, options, before, env=env, cwd=ctx.dir)
    else:
        delimiter = options["delimiter"] = rng.choice((",", "    ", "\t", ";"))
        fresh.must("writing", do_write, dict(model.to_dict(s), NLHEAD=1), out, options, before, env=env, cwd=ctx.dir)
    got = lines_of(out)
    diff = present.judge(got, s, delimiter=delimiter, annotation=True, label=label)
    if diff:
        raise Violation("FFI %d with the %s descriptions: %s" % (s["ffi"], "site's" if label else "shipped", diff), text=got)
    ctx.count("annotated files judged")
    if rng.random() < 0.4:
        plain = os.path.join(ctx.dir, "plain.na")
        o = {"no_header": True, "annotation": False} if rng.random() < 0.3 else {}
        fresh.must("writing", do_write, dict(model.to_dict(s), NLHEAD=1), plain, o, None, env=env, cwd=ctx.dir)
        diff = present.judge(lines_of(plain), s, **o)
        if diff:
            raise Violation("FFI %d, without annotation: %s" % (s["ffi"], diff), text=lines_of(plain))
        ctx.feature("no effect without annotation")
    if rng.random() < 0.3 and s["ffi"] not in (2110, 2160, 2310):
        a, b = os.path.join(ctx.dir, "a.nc"), os.path.join(ctx.dir, "b.nc")
        fresh.must("convertNAToNC", do_na2nc, src, a, env=env, cwd=ctx.dir)
        fresh.must("convertNAToNC", do_na2nc, src, b, env={k: None for k in env}, cwd=ctx.dir)
        if nc.everything(a) != nc.everything(b):
            raise Violation("the NetCDF file depends on the configuration", site=nc.everything(a), plain=nc.everything(b))
        ctx.feature("no effect on NetCDF")


def label_lines(got, label, sep, what):
    """The lines without the descriptions, which have to be the site's."""
    out = []
    starts = sorted(set(label.values()), key=len, reverse=True)
    for n, line in enumerate(got.split("\n")[:-1]):
        for t in starts:
            m = re.match(re.escape(t) + r"( \d+)?" + re.escape(sep), line)
            if m:
                break
        else:
            raise Violation("%s: line %d starts with none of the descriptions: %r" % (what, n + 1, line[:200]))
        out.append(line[m.end():])
    return "\n".join(out) + "\n"


def listed(value):
    return [int(x) for x in value.split()]


def converted(rng, ctx, env, label, na, mapping):
    """NetCDF to NASA Ames with site defaults, mappings and overrides."""
    g = nc.NcGen(rng)
    ds = g.dataset()
    for k in ATTS:
        ds["globals"].pop(k, None)
    mapped = {}
    for att, key in mapping.items():
        if rng.random() < 0.85:
            text = g.line().strip()
            if not text:
                continue
            ds["globals"][att] = text
            ds["globals"].pop({"SNAME": "source", "MNAME": "title"}[key], None)
            mapped[key] = (att, text)
            ctx.feature("mapping used")
    path = os.path.join(ctx.dir, "in.nc")
    nc.write(path, ds)
    ctx.seen(repr((ds, env, na)))
    ctx.sample = repr((na, mapping, label and label["ORG"], ds["globals"]))
    explicit = {}
    if rng.random() < 0.45:
        for k in rng.sample(KEYS + ("DATE", "NCOM"), rng.randint(1, 3)):
            explicit[k] = listed("%d %d %d" % (rng.randint(1950, 2030), rng.randint(1, 12), rng.randint(1, 28))) \
                if k == "DATE" else [g.line()] if k == "NCOM" else g.line() if rng.random() < 0.8 else ""
        if set(explicit) & set(na):
            ctx.feature("explicit override wins")
    options = {}
    if explicit:
        options["na_items_to_override"] = explicit
    if rng.random() < 0.3:
        options["float_format"] = "%.12e"
    if rng.random() < 0.2:
        options["size_limit"] = rng.randint(1, 8)
    annotated = rng.random() < 0.4
    sep = "\t"
    options["delimiter"] = sep
    before = None
    if rng.random() < 0.3:
        before = ("nc", path, os.path.join(ctx.dir, "earlier.na"))
        ctx.feature("earlier use")
    da, db = os.path.join(ctx.dir, "a.dir"), os.path.join(ctx.dir, "b.dir")
    os.mkdir(da)
    os.mkdir(db)
    files = fresh.must("convertNCToNA(%r)" % options, do_nc2na, path, os.path.join(da, "out.na"),
                       dict(options, annotation=annotated), before, env=env, cwd=ctx.dir)
    # the same without any site defaults, everything said explicitly
    said = {k: v for k, (_, v) in mapped.items()}
    said.update({k: listed(v) if k in ("DATE", "RDATE") else [v] if k in ("NCOM", "SCOM") else v for k, v in na.items()})
    said.update(explicit)
    empty = ini(os.path.join(ctx.dir, "empty.ini"), {"nc_attributes": {}, "na_attributes": {}})
    want = fresh.must("convertNCToNA with explicit items", do_nc2na, path, os.path.join(db, "out.na"),
                      dict(options, na_items_to_override=said), None,
                      env={"NAPPY_ANNOTATIONS": None, "NAPPY_LOCAL_ATTRIBUTES": empty}, cwd=ctx.dir)
    if [os.path.relpath(f, da) for f in files] != [os.path.relpath(f, db) for f in want]:
        raise Violation("the files are %r, without site configuration %r" % (files, want))
    if len(files) > 1:
        ctx.feature("several files")
    for f, w in zip(files, want):
        a, b = lines_of(f), lines_of(w)
        name = os.path.basename(f)
        if annotated:
            a = label_lines(a, label or {k: v for k, v in present.labels().items()}, sep, name)
        compare(a, b, mapped, name)
        ctx.count("converted files compared")
        spec = refparse.strip_text(refparse.parse(a))
        for k in KEYS:
            v = said.get(k)
            if v is not None and spec[k.lower()] != v.strip().strip("'\"") and spec[k.lower()] != v.strip():
                raise Violation("%s: %s is %r, expected %r" % (name, k, spec[k.lower()], v))
        for k in ("DATE", "RDATE"):
            if k in said and list(spec[k.lower()]) != list(said[k]):
                raise Violation("%s: %s is %r, expected %r" % (name, k, spec[k.lower()], said[k]))
        for k in ("NCOM", "SCOM"):
            for line in said.get(k, ()):
                if line.strip() not in spec[k.lower()]:
                    raise Violation("%s: %s lacks %r" % (name, k, line))
    if rng.random() < 0.03:
        command(rng, ctx, env, path, da, db, options, files, annotated)


def compare(a, b, mapped, name):
    if a == b:
        return
    if mapped:
        # a mapped attribute is no longer among the comments
        try:
            a, b = refparse.parse(a), refparse.parse(b)
        except refparse.NotConformant as e:
            raise Violation("%s does not conform: %s" % (name, e))

        def bare(lines):
            return [x.strip() for x in lines if x.strip() and not x.startswith("===")]
        a["ncom"], b["ncom"] = bare(a["ncom"]), bare(b["ncom"])
        for att, text in mapped.values():
            # (as it is said, on one line)
            b["ncom"] = [x for x in b["ncom"] if x != ("%s:   %s" % (att, text)).strip()]
            if any(x.startswith(att + ":") for x in a["ncom"]):
                raise Violation("%s: the mapped attribute %s is also a comment" % (name, att))
        for k in b:
            if repr(a.get(k)) != repr(b[k]):
                raise Violation("%s: %s is %s, without site configuration %s" % (name, k, repr(a.get(k))[:300],
                                                                                repr(b[k])[:300]))
        return
    x, y = a.split("\n"), b.split("\n")
    for n in range(max(len(x), len(y))):
        if x[n:n + 1] != y[n:n + 1]:
            raise Violation("%s: line %d is %r, expected %r" % (name, n + 1, x[n:n + 1], y[n:n + 1]))


def command(rng, ctx, env, path, da, db, options, files, annotated):
    """The command in a real process gives the same files."""
    full = dict(os.environ)
    for k, v in env.items():
        full.pop(k, None)
        if v is not None:
            full[k] = v
    if "na_items_to_override" in options:
        return
    os.rename(db, db + ".old")
    os.mkdir(db)
    args = [sys.executable, "-m", "nappy.script.nc2na", "-i", path, "-o", os.path.join(db, "out.na"), "-d", options["delimiter"]]
    if "float_format" in options:
        args += ["-f", options["float_format"]]
    if "size_limit" in options:
        args += ["-l", str(options["size_limit"])]
    if annotated:
        args.append("--annotated")
    p = subprocess.run(args, env=full, cwd=ctx.dir, capture_output=True, text=True, timeout=100)
    if p.returncode:
        raise Violation("the command failed: %s" % p.stderr[-600:])
    for f in files:
        a, b = lines_of(f), lines_of(os.path.join(db, os.path.relpath(f, da)))
        if a != b:
            raise Violation("%s differs between the command and the library call" % os.path.basename(f), call=a, command=b)
    ctx.feature("command")


def case(rng, i, ctx):
    env, label, na, mapping = make_config(rng, ctx)
    if rng.random() < 0.5:
        ctx.sample = repr((env, label and label["DX"]))
        written(rng, ctx, env, label)
    else:
        converted(rng, ctx, env, label, na, mapping)
